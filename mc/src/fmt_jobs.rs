//! The checks of the formatter: C13 (it preserves the meaning) and C14 (it is canonical).
use crate::cases::{self, Case, Verdict};
use crate::driver::{self, run_typical};
use crate::lang_jobs::{self, sequences};
use crate::report::{file, Report};
use mc::lang::{self, Comment, LDecl, LField, LFile, LImport, LTy};
use mc::model::{Rule, Ty, RULES};
use mc::names;
use mc::util::{clip, fnv, par_map};
use std::collections::HashSet;
use std::path::Path;

/// How to write a schema down.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style {
    /// What goes between tokens: see `gap`.
    pub space: usize,
    /// 0: as given, 1: snake case, 2: camel case, 3: Pascal case, 4: snake case with a trailing underscore.
    pub naming: usize,
    /// Whether all names have a sigil.
    pub sigils: bool,
    /// How comments are laid out: see `write_comment`.
    pub comment: usize,
    /// Whether imports and deleted indices are written in reverse.
    pub reverse: bool,
}

pub const SPACES: usize = 9;
pub const COMMENTS: usize = 7;

struct Writer {
    out: String,
    style: Style,
    k: usize,
}

impl Writer {
    fn gap(&mut self, needed: bool) {
        self.k += 1;
        let g = match self.style.space {
            0 => {
                if needed {
                    " "
                } else {
                    ""
                }
            }
            1 => " ",
            2 => "\n",
            3 => "\r\n",
            4 => "\t",
            5 => "   \n\n \n   ",
            6 => "\u{2028}",
            7 => ["\n    ", " ", "\u{a0}", "\r\n\r\n", "\u{3000}"][self.k % 5],
            _ => ["\r", "\u{b}", "\u{c}", "\u{85}\n"][self.k % 4],
        };
        self.out += g;
    }
    /// A token, and what follows it.
    fn tok(&mut self, t: &str) {
        let last = self.out.chars().last();
        let first = t.chars().next().unwrap();
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let glued = last.is_some_and(word) && word(first);
        if !self.out.is_empty() {
            self.gap(glued);
        }
        self.out += t;
    }
    fn name(&mut self, name: &str) {
        let n = match self.style.naming {
            1 => names::snake(name),
            2 => names::camel(name),
            3 => names::pascal(name),
            4 => format!("{}_", names::snake(name)),
            _ => name.to_owned(),
        };
        // Not all names survive all the conventions, e.g. because of digits.
        let n = if names::snake(&n) == names::snake(name) && names::pascal(&n) == names::pascal(name) && n.chars().all(lang::is_ident_part) { n } else { name.to_owned() };
        let sigil = self.style.sigils || names::SCHEMA_KEYWORDS.contains(&n.as_str());
        self.tok(&format!("{}{n}", if sigil { "$" } else { "" }));
    }
    /// A comment with the line break after it. An empty comment is no comment.
    fn comment(&mut self, c: &Comment) {
        if c.is_empty() {
            return;
        }
        if !self.out.is_empty() && !self.out.ends_with('\n') {
            self.out += "\n";
        }
        let mut lines: Vec<String> = vec![];
        for (i, p) in c.iter().enumerate() {
            if i > 0 {
                lines.push(String::new());
            }
            match self.style.comment {
                0 => lines.push(p.join(" ")),
                1 => lines.extend(p.iter().cloned()),
                2 => lines.push(p.join("  \t")),
                3 => {
                    for pair in p.chunks(2) {
                        lines.push(format!("  {} \r", pair.join(" ")));
                    }
                }
                4 => {
                    if i > 0 {
                        lines.push("   ".into());
                    }
                    lines.push(p.join("\u{3000}"));
                }
                5 => lines.extend(p.chunks(7).map(|c| c.join(" "))),
                _ => {
                    lines.push(p[..1].join(" "));
                    if p.len() > 1 {
                        lines.push(format!("\t{}", p[1..].join(" ")));
                    }
                }
            }
        }
        if self.style.comment == 6 {
            lines.insert(0, String::new());
            lines.push(" ".into());
        }
        for (i, l) in lines.iter().enumerate() {
            let indent = match self.style.comment {
                1 => "",
                2 => "\t",
                _ => ["    ", "", " "][(i + self.style.space) % 3],
            };
            self.out += &format!("{indent}#{}{l}\n", if self.style.comment % 2 == 0 { " " } else { "" });
        }
    }
}

pub fn render(f: &LFile, style: Style) -> String {
    let mut w = Writer { out: String::new(), style, k: 0 };
    if !f.comment.is_empty() {
        w.comment(&f.comment);
        // A blank line keeps it apart from the comment of a declaration.
        w.out += if style.space == 3 { "\r\n" } else if style.space == 5 { "  \n\n" } else { "\n" };
    }
    let mut imports: Vec<&LImport> = f.imports.iter().collect();
    if style.reverse {
        imports.reverse();
    }
    for i in imports {
        w.tok("import");
        w.tok(&format!("'{}'", i.path));
        let inferred = Path::new(&i.path).file_stem().unwrap().to_string_lossy().into_owned();
        // An alias may be spelled out even if it is the inferred one.
        if names::snake(&inferred) != names::snake(&i.name) || (style.naming != 0 && i.name.chars().all(lang::is_ident_part)) {
            w.tok("as");
            w.name(&i.name);
        }
    }
    for (k, d) in f.decls.iter().enumerate() {
        if k == 0 && f.imports.is_empty() && f.comment.is_empty() && d.comment.is_empty() && style.space == 5 {
            w.out += "\n\n";
        }
        w.comment(&d.comment);
        w.tok_after_comment(if d.choice { "choice" } else { "struct" }, !d.comment.is_empty());
        w.name(&d.name);
        w.tok("{");
        for x in &d.fields {
            w.comment(&x.comment);
            if x.rule != Rule::Req {
                w.tok(x.rule.keyword().trim());
            }
            w.name(&x.name);
            if x.ty != LTy::Base(Ty::Unit) || style.sigils {
                w.tok(":");
                ty(&mut w, &x.ty);
            }
            w.tok("=");
            let digits = if style.sigils { format!("00{}", x.idx) } else { x.idx.to_string() };
            w.tok(&digits);
        }
        if !d.deleted.is_empty() {
            w.tok("deleted");
            let mut list = d.deleted.clone();
            if style.reverse {
                list.reverse();
            }
            for i in list {
                w.tok(&i.to_string());
            }
        }
        w.tok("}");
    }
    if style.space != 0 && !w.out.is_empty() {
        w.gap(false);
    }
    w.out
}

impl Writer {
    /// The keyword of a declaration, which must stay right below its comment.
    fn tok_after_comment(&mut self, t: &str, comment: bool) {
        if comment {
            self.out += ["", " ", "    ", "\t"][self.style.space % 4];
            self.out += t;
        } else {
            self.tok(t);
        }
    }
}

fn ty(w: &mut Writer, t: &LTy) {
    match t {
        LTy::Base(t) => w.tok(&t.text()),
        LTy::Arr(t) => {
            w.tok("[");
            ty(w, t);
            w.tok("]");
        }
        LTy::Named(import, name) => {
            if let Some(i) = import {
                w.name(i);
                w.tok(".");
            }
            w.name(name);
        }
    }
}

fn words(text: &str) -> Comment {
    text.split('|').map(|p| p.split_whitespace().map(str::to_owned).collect::<Vec<_>>()).filter(|p| !p.is_empty()).collect()
}

/// A schema together with its imports (which are plain).
pub struct Base {
    pub main: LFile,
}

pub fn dep_files() -> Vec<(String, String)> {
    vec![
        ("dep.t".into(), "struct A {}\n\nstruct FooBar {}\n\nstruct $String {}\n".into()),
        ("sub/other.t".into(), "import '../dep.t'\n\nchoice A {\n    x = 0\n}\n".into()),
        ("import.t".into(), "struct A {}\n".into()),
        ("fooBar.t".into(), "struct A {}\n".into()),
    ]
}

fn fld(name: &str, rule: Rule, ty: LTy, idx: u64) -> LField {
    LField { comment: vec![], rule, name: name.to_owned(), ty, idx }
}
fn dcl(choice: bool, name: &str, fields: Vec<LField>, deleted: &[u64]) -> LDecl {
    LDecl { comment: vec![], choice, name: name.to_owned(), fields, deleted: deleted.to_vec() }
}
fn named(i: &str, n: &str) -> LTy {
    LTy::Named((!i.is_empty()).then(|| i.to_owned()), n.to_owned())
}
fn imp(path: &str, name: &str) -> LImport {
    LImport { path: path.to_owned(), name: name.to_owned() }
}

const FIELD_NAMES: &[&str] = &["foo", "fooBar", "foo_bar_baz", "x1", "foo_1", "HTTPCode", "choice", "struct", "as", "Deleted", "string", "String", "U64", "u_64", "étéLong", "x_Y_z", "bool", "s_64"];
const TYPE_NAMES: &[&str] = &["A", "fooBar", "foo_bar_baz", "T1", "T_1", "HTTPCode", "Bool", "bool", "String", "string", "Struct", "choice", "Unit", "F64", "f_64", "Été", "Import"];

pub fn structures(thorough: bool) -> Vec<Base> {
    let mut out = vec![];
    let mut add = |imports: Vec<LImport>, decls: Vec<LDecl>| out.push(Base { main: LFile { comment: vec![], imports, decls } });
    add(vec![], vec![]);
    let all_imports = [
        imp("dep.t", "dep"),
        imp("sub/other.t", "other"),
        imp("./sub/../dep.t", "Zed"),
        imp("import.t", "import"),
        imp("fooBar.t", "fooBar"),
        imp("sub//other.t", "as"),
    ];
    for m in 0..1_usize << all_imports.len() {
        let chosen: Vec<LImport> = all_imports.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()).collect();
        let fields: Vec<LField> = chosen.iter().enumerate().map(|(i, x)| fld(&format!("f{i}"), Rule::Req, named(&x.name, "A"), i as u64)).collect();
        add(chosen.clone(), vec![]);
        add(chosen, vec![dcl(m % 2 == 0, "Holder", fields, &[])]);
    }
    for n in FIELD_NAMES {
        for choice in [false, true] {
            for rule in RULES {
                add(vec![], vec![dcl(choice, "A", vec![fld(n, rule, LTy::Base(Ty::Unit), 0)], &[])]);
                add(vec![], vec![dcl(choice, "A", vec![fld(n, rule, LTy::Base(Ty::Str).clone(), 0)], &[])]);
            }
        }
        for o in FIELD_NAMES {
            if !lang::same_name(n, o) {
                add(vec![], vec![dcl(false, "A", vec![fld(n, Rule::Req, LTy::Base(Ty::U64), 0), fld(o, Rule::Opt, LTy::Base(Ty::F64), 1)], &[])]);
            }
        }
    }
    for n in TYPE_NAMES {
        for choice in [false, true] {
            add(vec![], vec![dcl(choice, n, vec![], &[])]);
            add(vec![], vec![dcl(choice, n, vec![], &[]), dcl(false, "Holder", vec![fld("a", Rule::Req, named("", n), 0), fld("b", Rule::Asym, LTy::Arr(Box::new(named("", n))), 1)], &[])]);
        }
    }
    // Types, rules, indices and deleted indices.
    let types = [
        LTy::Base(Ty::Unit),
        LTy::Base(Ty::F64),
        LTy::Base(Ty::U64),
        LTy::Base(Ty::S64),
        LTy::Base(Ty::Bool),
        LTy::Base(Ty::Bytes),
        LTy::Base(Ty::Str),
        LTy::Arr(Box::new(LTy::Base(Ty::Unit))),
        LTy::Arr(Box::new(LTy::Arr(Box::new(LTy::Base(Ty::Bool))))),
        named("", "B"),
        named("dep", "FooBar"),
        named("dep", "String"),
        LTy::Arr(Box::new(named("dep", "A"))),
    ];
    for t in &types {
        for rule in RULES {
            for choice in [false, true] {
                for n in 0..=2_u64 {
                    for d in 0..=2_u64 {
                        // The field goes to any of the indices.
                        for at in 0..=n {
                            let mut fields: Vec<LField> = (0..n).map(|i| fld(&format!("g{i}"), RULES[(i + at) as usize % 3], LTy::Base(Ty::Unit), i + d)).collect();
                            fields.insert(at as usize, fld("it", rule, t.clone(), n + d));
                            if !thorough && (n + d + at) % 2 == 1 && rule != Rule::Opt {
                                continue;
                            }
                            add(vec![imp("dep.t", "dep")], vec![dcl(choice, "A", fields, &(0..d).collect::<Vec<_>>()), dcl(false, "B", vec![], &[])]);
                        }
                    }
                }
            }
        }
    }
    add(vec![], vec![dcl(false, "A", vec![], &(0..200).collect::<Vec<_>>())]);
    out
}

/// Schemas with comments at some positions: `at` says which of the five positions has which text.
fn commented(texts: &[Comment; 5]) -> LFile {
    let mut a = fld("a", Rule::Req, LTy::Base(Ty::U64), 0);
    a.comment = texts[2].clone();
    let mut b = fld("b", Rule::Opt, LTy::Base(Ty::Unit), 1);
    b.comment = texts[3].clone();
    let mut d = dcl(false, "A", vec![a, b], &[]);
    d.comment = texts[1].clone();
    let mut e = dcl(true, "B", vec![], &[]);
    e.comment = texts[4].clone();
    LFile { comment: texts[0].clone(), imports: vec![], decls: vec![d, e] }
}

pub fn comment_structures(thorough: bool) -> Vec<Base> {
    let mut out = vec![];
    // Which positions have comments.
    for m in 0..32_usize {
        for import in [false, true] {
            let mut t: [Comment; 5] = Default::default();
            for (i, c) in t.iter_mut().enumerate() {
                if m >> i & 1 == 1 {
                    *c = words(&format!("Comment number {i}.|Second paragraph of {i}."));
                }
            }
            let mut f = commented(&t);
            if import {
                f.imports.push(imp("dep.t", "dep"));
            }
            out.push(Base { main: f });
        }
    }
    // A comment of a file without anything else, or with imports only.
    for import in [false, true] {
        out.push(Base { main: LFile { comment: words("Just a comment.|And more."), imports: if import { vec![imp("dep.t", "dep")] } else { vec![] }, decls: vec![] } });
    }
    // Words of every length around the widths of the lines, and what may confuse a wrapper of text.
    let mut texts: Vec<String> = vec![];
    for n in (1..=4).chain(66..=84).chain([150, 300]) {
        texts.push("x".repeat(n));
        for tail in ["a", "bb ccc", "dddd | e"] {
            texts.push(format!("{} {tail}", "x".repeat(n)));
            texts.push(format!("{tail} {}", "x".repeat(n)));
        }
        texts.push("ab ".repeat(n));
        texts.push(format!("{} {}", "y".repeat(n / 2), "z".repeat(n - n / 2)));
    }
    for special in [
        "well-known co-operative hyphen-ated-words-which-go-on-and-on-and-on-and-on-and-on-until-the-end-of-the-line-and-further",
        "# ## #! a#b # #",
        "struct A { x: U64 = 0 }",
        "a--b --flag -x - -- --- a- -b",
        "https://example.com/a/very/long/path/which/does/not/fit/into/a/line/of/the/formatter?x=1&y=2-3",
        "日本語のコメント 日本語 のコメント日本語のコメント日本語のコメント日本語のコメント日本語のコメント日本語のコメント日本語のコメント",
        "😀 😀😀 👩‍👩‍👧 e\u{301} \u{200b}zero\u{200b}width soft\u{ad}hyphen word\u{2060}joiner",
        "a\u{1b}[31mred\u{1b}[0m b \u{0}nul \u{7}",
        "(parens) [brackets] {braces} \"quotes\" 'single' `code` \\back\\slash",
        "* list - item + other 1. first 2) second",
        "foo\u{2010}bar foo\u{2011}bar foo\u{2012}bar foo\u{2013}bar foo\u{2014}bar/baz",
        "שלום עולם مرحبا بالعالم",
        "'quote #hash $dollar",
    ] {
        texts.push(special.to_owned());
        for pad in [60, 70, 74, 76] {
            texts.push(format!("{} {special}", "p".repeat(pad)));
        }
    }
    // Short words of various lengths in any order.
    let lengths = [1_usize, 24, 25, 36, 37, 38];
    for s in sequences(lengths.len(), if thorough { 5 } else { 4 }) {
        texts.push(s.iter().map(|i| "w".repeat(lengths[*i])).collect::<Vec<_>>().join(" "));
    }
    for (k, t) in texts.iter().enumerate() {
        let c = words(t);
        for at in if thorough || k % 7 == 0 { vec![0, 1, 2, 3, 4] } else { vec![k % 5, 2] } {
            let mut all: [Comment; 5] = Default::default();
            all[at] = c.clone();
            out.push(Base { main: commented(&all) });
        }
    }
    out
}

fn style(k: usize) -> Style {
    Style { space: k % SPACES, naming: (k / 2) % 5, sigils: k % 3 == 1, comment: (k / 3) % COMMENTS, reverse: k % 4 == 2 }
}

struct Item {
    group: usize,
    style: usize,
    case: Case,
}

fn items(report: &Report) -> (usize, Vec<Item>) {
    let mut bases = structures(report.thorough);
    bases.extend(comment_structures(report.thorough));
    let styles = if report.thorough { 126 } else { 18 };
    let groups: Vec<usize> = (0..bases.len()).collect();
    let deps = dep_files();
    let lists = par_map(driver::THREADS, &groups, |_, g| {
        let base = &bases[*g];
        let mut seen = HashSet::new();
        let mut out = vec![];
        for k in 0..styles {
            // The styles differ between the groups, so that all of them occur with everything.
            let k = if k == 0 { 1 } else { k * 7 + g * 5 };
            let s = style(k);
            let text = render(&base.main, s);
            if !seen.insert(fnv(text.as_bytes())) {
                continue;
            }
            let mut files = vec![("main.t".to_owned(), text)];
            if !base.main.imports.is_empty() {
                files.extend(deps.clone());
            }
            out.push(Item { group: *g, style: k, case: Case::tree(files) });
        }
        out
    });
    let mut out: Vec<Item> = lists.into_iter().flatten().collect();
    // Large ones, in some styles.
    let good = crate::large::good(report.thorough);
    report.add("large", good.len() as u64);
    let large: Vec<usize> = (0..good.len()).collect();
    let lists = par_map(driver::THREADS, &large, |_, g| {
        let parsed: Vec<(String, LFile)> = good[*g].iter().map(|(n, t)| (n.clone(), lang::parse(t).expect("a schema"))).collect();
        let mut out = vec![];
        for k in 0..if report.thorough { 9 } else { 3 } {
            let k = if k == 0 { 1 } else { k * 7 + g * 5 };
            let files = parsed.iter().map(|(n, f)| (n.clone(), render(f, style(k)))).collect();
            out.push(Item { group: bases.len() + g, style: k, case: Case::tree(files) });
        }
        out
    });
    out.extend(lists.into_iter().flatten());
    (bases.len() + good.len(), out)
}

/// What the tool makes of each item when formatting it, and what it makes of that.
struct Formatted {
    verdict: Verdict,
    once: Vec<String>,
    again_verdict: Verdict,
    twice: Vec<String>,
}

fn format_all(report: &Report, cases: &[Case]) -> Vec<Formatted> {
    let chunks: Vec<&[Case]> = cases.chunks(150).collect();
    let parts = par_map(driver::THREADS, &chunks, |_, chunk| {
        let (verdicts, once, runs) = cases::batch(chunk, true);
        let second: Vec<Case> = chunk
            .iter()
            .zip(&once)
            .map(|(c, texts)| Case { files: c.files.iter().zip(texts).map(|((n, _), t)| (n.clone(), t.clone())).collect(), valid: c.valid, why: String::new() })
            .collect();
        let (again, twice, runs2) = cases::batch(&second, true);
        report.add("runs", (runs + runs2) as u64);
        let mut out = vec![];
        for (((verdict, once), again_verdict), twice) in verdicts.into_iter().zip(once).zip(again).zip(twice) {
            out.push(Formatted { verdict, once, again_verdict, twice });
        }
        out
    });
    parts.into_iter().flatten().collect()
}

fn keep(c: &Case) -> Vec<(String, Vec<u8>)> {
    c.files.iter().map(|(n, t)| file(n, t)).collect()
}

/// The comments of the formatted text may only differ in what is no comment at all.
fn preserved(before: &str, after: &str) -> Result<(), String> {
    let a = lang::parse(before).map_err(|e| format!("the model does not accept the original: {e:?}"))?;
    let b = match lang::parse(after) {
        Ok(b) => b,
        Err((at, what)) => return Err(format!("the result is not a schema any more: {what} at byte {at}")),
    };
    if lang::meaning(&a) != lang::meaning(&b) {
        return Err(format!("the meaning changed from\n{}to\n{}", lang::meaning(&a), lang::meaning(&b)));
    }
    if lang::comments(&a) != lang::comments(&b) {
        return Err(format!("the comments changed from\n{}to\n{}", clip(&lang::comments(&a), 1200), clip(&lang::comments(&b), 1200)));
    }
    Ok(())
}

fn check_preserved(report: &Report, c: &Case, f: &Formatted) {
    report.add("formatted", 1);
    if !f.verdict.accepted() {
        if c.valid {
            report.violation(&format!("rejected, although it is valid: {:?}; {}", f.verdict, clip(&c.show(), 800)), &keep(c));
        }
        return;
    }
    if !c.valid {
        // C10 and C12 are about that.
        report.add("accepted_although_invalid", 1);
        return;
    }
    for ((name, before), after) in c.files.iter().zip(&f.once) {
        report.add("files_compared", 1);
        if let Err(what) = preserved(before, after) {
            report.violation(&format!("formatting {name}: {what}\nbefore:\n{}\nafter:\n{}", clip(before, 1000), clip(after, 1000)), &keep(c));
        }
    }
    if !f.again_verdict.accepted() {
        report.violation(&format!("formatted, and then rejected: {:?}\nbefore:\n{}\nafter:\n{}", f.again_verdict, clip(&c.files[0].1, 1000), clip(&f.once[0], 1000)), &keep(c));
    }
}

pub fn c13(report: &Report) -> i32 {
    let (bases, items) = items(report);
    report.add("schemas", bases as u64);
    report.add("renderings", items.len() as u64);
    let mut cases: Vec<Case> = items.into_iter().map(|i| i.case).collect();
    // Short strings as the text of a comment, whatever is in them.
    let chars: Vec<char> = "#a -\t\n\r'{\u{2028}\u{ad}".chars().collect();
    for n in 0..=(if report.thorough { 5 } else { 4 }) {
        for s in sequences(chars.len(), n) {
            let t: String = s.iter().map(|i| chars[*i]).collect();
            for text in [format!("#{t}\nstruct A {{}}\n"), format!("struct A {{\n#{t}\nx = 0 }}")] {
                let c = Case::one(&text);
                if c.valid {
                    cases.push(c);
                }
            }
        }
    }
    // Imports under every name from files of every name, and references to what is imported.
    for stem in lang_jobs::NAMES.iter().filter(|n| !n.starts_with('$')) {
        for name in lang_jobs::NAMES {
            for dir in ["", "sub/"] {
                let main = format!("import '{dir}{stem}.t' as {name}\nstruct Main {{\n    x: {name}.Foo = 0\n    y: {name}.$struct = 1\n}}\n");
                cases.push(Case::tree(vec![("main.t".into(), main), (format!("{dir}{stem}.t"), "struct Foo {}\nchoice $struct {}\n".into())]));
            }
        }
    }
    // Every character as a part of a name, where letter case may be anything.
    for c in (0..=0x0010_ffff_u32).filter_map(char::from_u32) {
        let cased = c.is_lowercase() || c.is_uppercase() || c.to_lowercase().next() != Some(c) || c.to_uppercase().next() != Some(c);
        if c.is_alphabetic() && (cased || (c as u32) % 997 == 0) {
            for t in [format!("struct {c} {{ {c} = 0 }}"), format!("struct A{c} {{ a{c}b = 0 }}"), format!("struct {c}B {{ x: {c}C = 0 }} struct {c}C {{}}")] {
                cases.push(Case::one(&t));
            }
        }
    }
    report.add("cases", cases.len() as u64);
    let done = format_all(report, &cases);
    for (c, f) in cases.iter().zip(&done) {
        check_preserved(report, c, f);
    }
    for c in cases.iter().step_by(cases.len() / 5) {
        report.sample(clip(&c.show(), 500));
    }
    report.assume("the reference parser (lang.rs) is written from README.md");
    report.finish()
}

pub fn c14(report: &Report) -> i32 {
    let (bases, items) = items(report);
    report.add("schemas", bases as u64);
    report.add("renderings", items.len() as u64);
    let cases: Vec<Case> = items.iter().map(|i| i.case.clone()).collect();
    let done = format_all(report, &cases);
    // Renderings of the same schema have the same formatted text.
    let mut canon: Vec<Option<usize>> = vec![None; bases];
    for (k, (item, f)) in items.iter().zip(&done).enumerate() {
        if !f.verdict.accepted() || !item.case.valid {
            if item.case.valid {
                report.violation(&format!("rejected, although it is valid: {:?}; {}", f.verdict, clip(&item.case.show(), 800)), &keep(&item.case));
            }
            continue;
        }
        report.add("formatted_twice", 1);
        if f.once != f.twice {
            report.violation(&format!("formatting again changes the result\nbefore:\n{}\nonce:\n{}\ntwice:\n{}", clip(&item.case.files[0].1, 800), clip(&f.once[0], 800), clip(&f.twice[0], 800)), &keep(&item.case));
        }
        match canon[item.group] {
            None => canon[item.group] = Some(k),
            Some(first) => {
                report.add("pairs_compared", 1);
                if done[first].once != f.once {
                    report.violation(
                        &format!(
                            "these only differ in layout and letter case (styles {:?} and {:?}), but not so when formatted\nA:\n{}\nA formatted:\n{}\nB:\n{}\nB formatted:\n{}",
                            style(items[first].style),
                            style(item.style),
                            clip(&items[first].case.files[0].1, 800),
                            clip(&done[first].once[0], 800),
                            clip(&item.case.files[0].1, 800),
                            clip(&f.once[0], 800)
                        ),
                        &keep(&item.case),
                    );
                }
            }
        }
    }
    // The check mode, one schema at a time: every rendering, and the formatted text.
    let pick: Vec<usize> = (0..items.len()).collect();
    par_map(driver::THREADS, &pick, |_, k| {
        let (c, f) = (&cases[*k], &done[*k]);
        if !c.valid || !f.verdict.accepted() {
            return;
        }
        let changes = c.files.iter().zip(&f.once).any(|((_, a), b)| a != b);
        check_mode(report, &c.files, "main.t", changes);
        let after: Vec<(String, String)> = c.files.iter().zip(&f.once).map(|((n, _), t)| (n.clone(), t.clone())).collect();
        check_mode(report, &after, "main.t", false);
    });
    c14_trees(report);
    for c in cases.iter().step_by(cases.len() / 5) {
        report.sample(clip(&c.show(), 500));
    }
    report.finish()
}

fn snapshot(dir: &Path) -> Vec<(String, Vec<u8>, std::time::SystemTime)> {
    fn walk(dir: &Path, at: &Path, out: &mut Vec<(String, Vec<u8>, std::time::SystemTime)>) {
        let mut list: Vec<_> = std::fs::read_dir(at).unwrap().map(|e| e.unwrap().path()).collect();
        list.sort();
        for p in list {
            if p.is_dir() {
                walk(dir, &p, out);
            } else {
                let m = std::fs::metadata(&p).unwrap().modified().unwrap();
                out.push((p.strip_prefix(dir).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap(), m));
            }
        }
    }
    let mut out = vec![];
    walk(dir, dir, &mut out);
    out
}

/// Run the check mode: it must fail exactly if something would change, and never write.
fn check_mode(report: &Report, files: &[(String, String)], main: &str, changes: bool) {
    let dir = cases::fresh_dir("check");
    driver::write_files(&dir, files);
    let before = snapshot(&dir);
    let ran = run_typical(&dir, &["format", "--check", main]);
    report.add("check_runs", 1);
    let after = snapshot(&dir);
    let kept: Vec<_> = files.iter().map(|(n, t)| file(n, t)).collect();
    if before != after {
        report.violation(&format!("`typical format --check {main}` changed something; {}", ran.show()), &kept);
    }
    if ran.crash().is_some() || ran.ok() == changes {
        report.violation(&format!("`typical format --check {main}`, where formatting would {}: {}", if changes { "change something" } else { "change nothing" }, ran.show()), &kept);
    }
    cases::remove(&dir);
}

/// Where the command runs, and how it is given the schema.
const WAYS: &[(&str, &str)] = &[
    ("base", "main.t"),
    ("", "base/main.t"),
    ("other", "../base/main.t"),
    ("base/sub", "../main.t"),
    ("other", "$/base/main.t"),
    ("base", "./main.t"),
    ("base", "$/base/main.t"),
    ("", "./other/../base/./main.t"),
    ("base", "sub/../main.t"),
];

/// Trees of up to four files, each formatted, unformatted or broken: formatting changes exactly the
/// unformatted ones which are reachable, or none if some reachable one is broken.
fn c14_trees(report: &Report) {
    let names = ["main.t", "a.t", "sub/b.t", "sub/c.t"];
    let imports: [&[usize]; 4] = [&[1, 2], &[3], &[0], &[]];
    let mut jobs = vec![];
    for shape in 0..3_usize {
        // Which imports there are: all of them, a chain, or none (nothing else is reachable).
        for states in sequences(6, 4) {
            if states[1..].contains(&5) && shape == 2 {
                continue;
            }
            jobs.push((shape, states));
        }
    }
    par_map(driver::THREADS, &jobs, |job, (shape, states)| {
        let links: Vec<Vec<usize>> = (0..4)
            .map(|i| match shape {
                0 => imports[i].to_vec(),
                1 => {
                    if i < 3 {
                        vec![i + 1]
                    } else {
                        vec![]
                    }
                }
                _ => vec![],
            })
            .collect();
        let mut reachable = vec![0];
        let mut k = 0;
        while k < reachable.len() {
            for n in &links[reachable[k]] {
                if !reachable.contains(n) {
                    reachable.push(*n);
                }
            }
            k += 1;
        }
        let text = |i: usize| -> (String, Option<String>) {
            let mut sorted: Vec<usize> = links[i].clone();
            sorted.sort_by_key(|n| names::snake(Path::new(names[*n]).file_stem().unwrap().to_str().unwrap()));
            let head: String = sorted.iter().map(|n| format!("import '{}'\n", mc::model::relative(names[i], names[*n]))).collect();
            let blank = if head.is_empty() { "" } else { "\n" };
            let good = format!("{head}{blank}struct A {{\n    x = 0\n}}\n");
            match states[i] {
                0 => (good.clone(), Some(good)),
                1 => (format!("{head}struct A {{x=0}}"), Some(good)),
                2 => (format!("{head}{blank}struct A {{\n    x = 0\n}}\n\n"), Some(good)),
                3 => (format!("{head}{blank}struct a {{\n    X = 0\n}}\n"), Some(good)),
                // A schema which only the validator would reject is formatted nevertheless.
                4 => (format!("{head}struct A {{x=1}}"), Some(format!("{head}{blank}struct A {{\n    x = 1\n}}\n"))),
                _ => (format!("{head}struct A {{ x 0 }}"), None),
            }
        };
        let files: Vec<(String, String)> = (0..4).map(|i| (names[i].to_owned(), text(i).0)).collect();
        // A broken file hides what it imports.
        let mut loaded = vec![0];
        let mut k = 0;
        while k < loaded.len() {
            if states[loaded[k]] != 5 {
                for n in &links[loaded[k]] {
                    if !loaded.contains(n) {
                        loaded.push(*n);
                    }
                }
            }
            k += 1;
        }
        let broken = loaded.iter().any(|i| states[*i] == 5);
        let changes = reachable.iter().any(|i| text(*i).1.is_some_and(|t| t != text(*i).0));
        report.add("trees", 1);
        check_mode(report, &files, "main.t", changes || broken);
        // The schemas are in `base`; where the command runs, there are others of the same names.
        let dir = cases::fresh_dir("tree");
        let (cwd, path) = WAYS[(job + job / WAYS.len() + job / 216) % WAYS.len()];
        let decoys: Vec<(String, String)> = ["", "other/", "base/sub/"].iter().flat_map(|d| names.iter().map(move |n| (format!("{d}{n}"), "struct Decoy{x=0}".to_owned()))).collect();
        driver::write_files(&dir, &decoys);
        driver::write_files(&dir, &files.iter().map(|(n, t)| (format!("base/{n}"), t.clone())).collect::<Vec<_>>());
        let path = path.replace("$", &dir.to_string_lossy());
        let before = snapshot(&dir);
        let check = run_typical(&dir.join(cwd), &["format", "--check", &path]);
        let checked = snapshot(&dir);
        let ran = run_typical(&dir.join(cwd), &["format", &path]);
        report.add("format_runs", 1);
        let after = snapshot(&dir);
        let expected: Vec<(String, String)> = (0..4)
            .map(|i| (format!("base/{}", names[i]), if broken || !reachable.contains(&i) { text(i).0 } else { text(i).1.unwrap() }))
            .collect();
        let got: Vec<(String, String)> = after.iter().map(|(n, t, _)| (n.clone(), String::from_utf8_lossy(t).into_owned())).collect();
        let mut want = expected.clone();
        want.extend(decoys);
        want.sort();
        let mut got_sorted = got.clone();
        got_sorted.sort();
        let kept: Vec<_> = before.iter().map(|(n, t, _)| (n.clone(), t.clone())).collect();
        if check.crash().is_some() || check.ok() != (!changes && !broken) || checked != before {
            report.violation(&format!("`typical format --check {path}` in {cwd:?}, with shape {shape}, states {states:?} (0 formatted, 1 to 3 unformatted, 4 invalid, 5 broken): {}", check.show()), &kept);
        }
        if ran.crash().is_some() || ran.ok() == broken || want != got_sorted {
            report.violation(&format!("`typical format {path}` in {cwd:?}, with shape {shape}, states {states:?} (0 formatted, 1 to 3 unformatted, 4 invalid, 5 broken) gave {got:?}; {}", ran.show()), &kept);
        }
        // Files which do not change are not even touched.
        for (b, a) in before.iter().zip(&after) {
            if b.1 == a.1 && b.2 != a.2 {
                report.violation(&format!("`typical format {path}` in {cwd:?} rewrote {}, which did not change", b.0), &kept);
            }
        }
        cases::remove(&dir);
    });
}
