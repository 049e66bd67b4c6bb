//! The check of error messages: C18.
use crate::cases::{self, fresh_dir, remove};
use crate::driver::{self, run, typical_cmd, Ran};
use crate::lang_jobs::sequences;
use crate::report::{file, Report};
use mc::lang::{self, At, Judgement};
use mc::names;
use mc::util::{clip, par_map};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

type Files = Vec<(String, String)>;

/// An error as it was printed.
#[derive(Clone, Debug)]
struct Said {
    file: Option<String>,
    text: String,
    /// The listing: line numbers and lines.
    lines: Vec<(usize, String)>,
}

/// Read what the tool printed on the standard error.
fn read(stderr: &str) -> Vec<Said> {
    cases::errors(stderr)
        .iter()
        .map(|e| {
            let body = e.strip_prefix("[Error] ").unwrap_or(e);
            // With colors there are no backticks.
            let (file, text) = match body.strip_prefix('[').and_then(|b| b.split_once("] ")) {
                Some((f, rest)) => (Some(f.trim_matches('`').to_owned()), rest),
                None => (None, body),
            };
            let mut lines = vec![];
            for l in text.split('\n').skip(1) {
                // The number may be padded.
                if let Some((n, rest)) = l.split_once(" │") {
                    if let Ok(n) = n.trim_start().parse::<usize>() {
                        lines.push((n, rest.strip_prefix(' ').unwrap_or(rest).to_owned()));
                    }
                }
            }
            Said { file, text: text.split('\n').next().unwrap_or("").to_owned(), lines }
        })
        .collect()
}

/// A mistake, where it is, and what a message about it may show.
#[derive(Clone, Debug)]
struct Mistake {
    what: String,
    file: String,
    /// At least one of these lines is shown. None if the mistake is not in a line of a file.
    core: Option<(usize, usize)>,
    /// And no others than these.
    around: (usize, usize),
    /// Other places: (file, core and around). The tool may show any of those instead.
    others: Vec<(String, (usize, usize))>,
}

fn line_of(text: &str, at: usize) -> usize {
    text[..at.min(text.len())].matches('\n').count() + 1
}

/// The mistakes in a tree.
fn mistakes(files: &BTreeMap<String, String>, j: &Judgement) -> Vec<Mistake> {
    let mut out = vec![];
    for ((path, what), at) in j.loading.iter().zip(&j.loading_at).chain(j.invalid.iter().zip(&j.invalid_at)) {
        let text = &files[path];
        let range = |(a, b): (usize, usize)| (line_of(text, a), line_of(text, b));
        let (core, around) = match *at {
            At::Root => (None, (0, 0)),
            At::Offset(at) => {
                // Between the token before it and the end of the one which is there.
                let (mut from, mut to) = (line_of(text, at), line_of(text, at));
                if let Ok(toks) = lang::tokenize(text) {
                    if let Some(t) = toks.iter().rev().find(|t| t.end <= at) {
                        from = line_of(text, t.end);
                    }
                    if let Some(t) = toks.iter().find(|t| t.start >= at) {
                        to = line_of(text, t.end);
                    }
                    // Imports are shown as a whole.
                    if what.contains("import") {
                        (from, to) = (line_of(text, at), line_of(text, text.len()));
                    }
                } else {
                    // Letters which belong together and so on.
                    to = line_of(text, text[at..].find(char::is_whitespace).map_or(text.len(), |n| at + n));
                }
                (Some((from, to)), (from, to))
            }
            other => {
                let (_, spans) = lang::parse_with_spans(text).expect("it was parsed before");
                match other {
                    At::Import(n) => (Some(range(spans.imports[n])), range(spans.imports[n])),
                    At::Decl(d) => (Some(range(spans.decls[d].name)), range(spans.decls[d].all)),
                    At::Name(d, f) => (Some(range(spans.decls[d].fields[f].name)), range(spans.decls[d].fields[f].all)),
                    At::Index(d, f) => (Some(range(spans.decls[d].fields[f].idx)), range(spans.decls[d].fields[f].all)),
                    At::Type(d, f) => (Some(range(spans.decls[d].fields[f].ty)), range(spans.decls[d].fields[f].all)),
                    _ => unreachable!(),
                }
            }
        };
        out.push(Mistake { what: what.clone(), file: path.clone(), core, around, others: vec![] });
        if let At::Import(n) = *at {
            // Two imports of the same thing which is no file are reported once, and so are two files with the same
            // namespace, at any import of one of them.
            let cause = |p: &str, n: usize| -> Option<String> {
                let path = &j.parsed.get(p)?.imports[n].path;
                match lang::resolve(files, p, path) {
                    Ok(target) => Some(lang::namespace(&target).join("/")),
                    Err(why) if why == "not a file" => {
                        let mut at: Vec<&str> = p.split('/').collect();
                        at.pop();
                        for x in path.split('/').filter(|x| !matches!(*x, "" | ".")) {
                            if x == ".." {
                                at.pop();
                            } else {
                                at.push(x);
                            }
                        }
                        Some(format!("{}/", at.join("/")))
                    }
                    Err(_) => None,
                }
            };
            let mine = cause(path, n);
            if mine.is_some() {
                for (p, f) in &j.parsed {
                    let (_, spans) = lang::parse_with_spans(&files[p]).expect("it was parsed before");
                    for m in (0..f.imports.len()).filter(|m| cause(p, *m) == mine) {
                        let (a, b) = spans.imports[m];
                        out.last_mut().unwrap().others.push((p.clone(), (line_of(&files[p], a), line_of(&files[p], b))));
                    }
                }
            }
        }
    }
    out
}

/// Whether an error is about a mistake.
fn about(e: &Said, m: &Mistake) -> bool {
    if m.others.iter().any(|(f, r)| e.file.as_deref() == Some(f) && !e.lines.is_empty() && e.lines.iter().all(|(n, _)| (r.0..=r.1).contains(n))) {
        return true;
    }
    match m.core {
        None => e.file.as_deref().is_none_or(|f| f == m.file),
        Some(core) => {
            e.file.as_deref() == Some(&m.file)
                && e.lines.iter().any(|(n, _)| (core.0..=core.1).contains(n))
                && e.lines.iter().all(|(n, _)| (m.around.0..=m.around.1).contains(n))
        }
    }
}

/// A matching of every mistake with an error of its own, or a mistake for which there is none.
fn unmatched(ms: &[&Mistake], es: &[Said]) -> Option<usize> {
    let edges: Vec<Vec<usize>> = ms.iter().map(|m| (0..es.len()).filter(|e| about(&es[*e], m)).collect()).collect();
    let mut owner: Vec<Option<usize>> = vec![None; es.len()];
    fn go(m: usize, edges: &[Vec<usize>], owner: &mut [Option<usize>], seen: &mut BTreeSet<usize>) -> bool {
        for &e in &edges[m] {
            if seen.insert(e) && (owner[e].is_none() || go(owner[e].unwrap(), edges, owner, seen)) {
                owner[e] = Some(m);
                return true;
            }
        }
        false
    }
    (0..ms.len()).find(|m| !go(*m, &edges, &mut owner, &mut BTreeSet::new()))
}

/// A name without its separators, as `qux_1` may be shown as `Qux1`.
fn bare(name: &str) -> String {
    names::snake(name).replace('_', "")
}

/// The types which a cycle error names.
fn named_cycle(text: &str) -> Vec<String> {
    let name = |q: &str| q.split('.').map(bare).collect::<Vec<_>>().join(".");
    if text.contains('`') {
        return text.split('`').skip(1).step_by(2).map(name).collect();
    }
    // With colors there are no backticks.
    let list = text.trim_end_matches('.').split_once(": ").map_or("", |x| x.1);
    list.split('→').map(|q| name(q.trim())).collect()
}

/// What is wrong with what the tool said about a tree.
fn wrong(files: &BTreeMap<String, String>, j: &Judgement, ran: &Ran, loading_only: bool) -> Option<String> {
    if let Some(c) = ran.crash() {
        return Some(c);
    }
    let expected_ok = if loading_only { j.loading.is_empty() } else { j.ok() };
    if ran.ok() != expected_ok {
        return Some(format!("it {}, although {}: {}", if ran.ok() { "succeeds" } else { "fails" }, j.show(), ran.show()));
    }
    if expected_ok {
        return None;
    }
    let said = read(&ran.err_text());
    if said.is_empty() {
        return Some(format!("there is no message: {}", ran.show()));
    }
    for e in &said {
        if let Some(f) = &e.file {
            let Some(text) = files.get(f) else { return Some(format!("a message names {f:?}, which is not one of the files: {:?}", e.text)) };
            let lines: Vec<&str> = text.split('\n').collect();
            for (n, shown) in &e.lines {
                let real = lines.get(n.wrapping_sub(1)).map(|l| l.trim_end());
                if real != Some(shown.trim_end()) {
                    return Some(format!("a message shows {shown:?} as line {n} of {f}, which is {real:?}: {:?}", e.text));
                }
            }
        } else if !e.lines.is_empty() {
            return Some(format!("a message shows lines of no file: {e:?}"));
        }
    }
    let all = mistakes(files, j);
    if j.loading.is_empty() && j.invalid.is_empty() {
        // Cycles.
        let namespace = |p: &str| lang::namespace(p).iter().map(|x| bare(x)).collect::<Vec<_>>().join(".");
        let edges: BTreeMap<String, BTreeSet<String>> =
            j.edges.iter().map(|((p, n), to)| (format!("{}.{}", namespace(p), bare(n)), to.iter().map(|(p, n)| format!("{}.{}", namespace(p), bare(n))).collect())).collect();
        for e in &said {
            let cycle = named_cycle(&e.text);
            if cycle.len() < 2 {
                return Some(format!("the types are cyclic, but a message names no cycle: {:?}", e.text));
            }
            let closed = cycle[..cycle.len() - 1].contains(cycle.last().unwrap());
            let links = cycle.windows(2).all(|w| edges.get(&w[0]).is_some_and(|to| to.contains(&w[1])));
            if !closed || !links {
                return Some(format!("what is named as a cycle is none: {:?}", e.text));
            }
        }
        return None;
    }
    if !j.loading.is_empty() {
        // Every mistake is shown by a message; those with the same cause by the same one. There may be further
        // messages about the syntax of a file with a mistake in it.
        for m in &all {
            if m.core.is_none() {
                continue;
            }
            let syntax = m.others.is_empty() && m.core.is_some();
            let of: Vec<&Said> = said.iter().filter(|e| e.file.as_deref() == Some(&m.file)).collect();
            let shown = said.iter().any(|e| about(e, m));
            if !shown {
                return Some(format!("there is no message which shows this mistake: {} in {} (lines {:?}): {}", m.what, m.file, m.core, ran.show()));
            }
            if syntax && all.iter().filter(|o| o.file == m.file).count() == 1 && !about(of[0], m) {
                return Some(format!("the first message about {} does not show the first mistake: {} (lines {:?}): {}", m.file, m.what, m.core, ran.show()));
            }
        }
        for e in &said {
            if let Some(f) = e.file.as_deref() {
                if !all.iter().any(|m| m.file == f || m.others.iter().any(|o| o.0 == f)) {
                    return Some(format!("a message about {f}, in which nothing is wrong: {e:?}"));
                }
            }
        }
        return None;
    }
    // Every mistake has a message, and every message is about a mistake.
    let list: Vec<&Mistake> = all.iter().collect();
    if let Some(m) = unmatched(&list, &said) {
        return Some(format!("there is no message which shows this mistake: {} in {} (lines {:?}): {}", all[m].what, all[m].file, all[m].core, ran.show()));
    }
    for e in &said {
        if !all.iter().any(|m| about(e, m)) {
            return Some(format!("a message which is not about a mistake: {e:?}"));
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------------

fn typical(dir: &std::path::Path, args: &[&str], colors: bool) -> Ran {
    let mut c = typical_cmd(dir);
    c.args(args);
    if colors {
        c.env_remove("NO_COLOR").env("CLICOLOR_FORCE", "1");
    }
    let mut ran = run(&mut c, None, Duration::from_secs(120));
    if colors {
        // Without the colors it must say the same.
        let text = ran.err_text();
        let mut plain = String::new();
        let mut rest = text.as_str();
        while let Some(i) = rest.find('\u{1b}') {
            plain += &rest[..i];
            let after = &rest[i..];
            let end = after.find('m').map_or(after.len(), |k| k + 1);
            rest = &after[end..];
        }
        plain += rest;
        ran.err = plain.into_bytes();
    }
    ran
}

fn keep(files: &Files) -> Vec<(String, Vec<u8>)> {
    files.iter().map(|(n, t)| file(n, t)).collect()
}

/// A tree whose first file is the root.
fn check_alone(report: &Report, files: &Files, colors: bool) {
    let tree: BTreeMap<String, String> = files.iter().cloned().collect();
    let j = lang::judge(&tree, &files[0].0);
    let dir = fresh_dir("where");
    driver::write_files(&dir, files);
    for (k, args) in [&["generate", &files[0].0][..], &["format", "--check", &files[0].0]].iter().enumerate() {
        if k == 1 && j.loading.is_empty() {
            break;
        }
        let ran = typical(&dir, args, colors);
        report.add("runs", 1);
        if let Some(w) = wrong(&tree, &j, &ran, k == 1) {
            report.violation(&format!("`typical {}` on {}: {w}", args.join(" "), clip(&format!("{files:?}"), 1500)), &keep(files));
            break;
        }
    }
    report.add("alone", 1);
    remove(&dir);
}

/// Many trees in one run. All of them are of the same kind: either all have mistakes in syntax (or imports) or none has.
fn check_together(report: &Report, trees: &[&Files], colors: bool) {
    let dir = fresh_dir("where");
    let mut all: BTreeMap<String, String> = BTreeMap::new();
    let mut root = String::new();
    for (i, t) in trees.iter().enumerate() {
        for (n, text) in t.iter() {
            all.insert(format!("k{i}/{n}"), text.clone());
        }
        root += &format!("import 'k{i}/{}' as k{i}\n", t[0].0);
    }
    all.insert("root.t".into(), root);
    let list: Files = all.iter().map(|(n, t)| (n.clone(), t.clone())).collect();
    driver::write_files(&dir, &list);
    let j = lang::judge(&all, "root.t");
    let ran = typical(&dir, &["generate", "root.t"], colors);
    report.add("runs", 1);
    remove(&dir);
    if let Some(w) = wrong(&all, &j, &ran, false) {
        if trees.len() > 1 {
            // Look for the one which it is about.
            let (a, b) = trees.split_at(trees.len() / 2);
            let before = report.violations();
            check_together(report, a, colors);
            check_together(report, b, colors);
            if report.violations() > before {
                return;
            }
        }
        report.violation(&format!("`typical generate` on {}: {w}", clip(&format!("{trees:?}"), 1500)), &keep(&list));
    }
}

// ---------------------------------------------------------------------------------------------------
// Layouts.

const LAYOUTS: usize = 11;

/// Tokens, as text, and whether each is a comment; laid out in one of several ways.
fn lay_out(tokens: &[String], layout: usize) -> String {
    let mut out = String::new();
    match layout {
        4 => out += &"\n".repeat(97),
        5 => out += "# Ein längerer Kommentar: äöü €\n#\n# 日本語 😀\n\n",
        7 => out += &"# x\n#\n".repeat(5),
        8 => out += &"\r\n \r\n".repeat(499),
        _ => {}
    }
    if matches!(layout, 5 | 7) && tokens.first().is_some_and(|t| t.starts_with('#')) {
        // It would be part of the first comment otherwise.
        out += "\n";
    }
    for (k, t) in tokens.iter().enumerate() {
        let next = tokens.get(k + 1);
        let comment = t.starts_with('#');
        let first = |w: &str| matches!(w, "struct" | "choice" | "import" | "}" | "deleted") || w.starts_with('#');
        let pretty = |indent: &str, end: &str| -> String {
            // A line per field, roughly.
            if t == "{" || next.is_some_and(|n| first(n)) || t.starts_with(|c: char| c.is_ascii_digit()) && next.is_some_and(|n| !n.starts_with(|c: char| c.is_ascii_digit())) {
                format!("{end}{indent}")
            } else {
                " ".into()
            }
        };
        out += t;
        let sep: String = match layout {
            0 => pretty("    ", "\n"),
            1 => "\n".into(),
            2 => " ".into(),
            3 => pretty("\t", "\r\n"),
            4 => pretty("  ", "\n\n"),
            5 => pretty("    ", " \n"),
            6 => [" ", "\n", "\r\n  ", "\n\n\t", "\u{a0}\u{3000}"][k % 5].into(),
            7 => ["\n        ", "  "][k % 2].into(),
            8 => pretty("", "\n"),
            9 => ["\n", " ", "\u{2028}", "\t"][k % 4].into(),
            _ => pretty(&" ".repeat(100), "\n"),
        };
        if comment && !sep.contains('\n') {
            out += "\n";
        }
        if next.is_some() || layout % 2 == 0 {
            out += &sep;
        }
    }
    out
}

fn tokens_of(text: &str) -> Vec<String> {
    let mut out = vec![];
    for t in lang::tokenize(text).expect("a valid text") {
        let slice = &text[t.start..t.end];
        out.push(slice.to_owned());
    }
    out
}

const BASES: &[&str] = &[
    "import 'dep.t'\nimport 'sub/other.t' as b\n\n# A comment.\nstruct Foo {\n    # Comment of a field.\n    x: U64 = 0\n    optional y: [dep.A] = 1\n    asymmetric zed: [[Bytes]] = 3\n    w = 4\n    deleted 2 5\n}\n\nchoice Bar {\n    a = 0\n    # Ünï.\n    optional b: Foo = 1\n}\n",
    "struct Éa {\n    été: String = 0\n}\nstruct B {\n}\n# Three\n# lines\n# of comment.\nchoice C {\n    $choice: F64 = 0\n}\n",
];

fn deps() -> Files {
    vec![("dep.t".into(), "struct A {}\n".into()), ("sub/other.t".into(), "choice A {\n    x = 0\n}\n".into())]
}

fn with_deps(main: String) -> Files {
    let mut out = vec![("main.t".to_owned(), main)];
    out.extend(deps());
    out
}

/// Schemas with a single mistake in their syntax, anywhere.
fn syntax(report: &Report) -> Vec<Files> {
    const WORDS: &[&str] = &["struct", "choice", "import", "as", "deleted", "optional", "asymmetric", "U64", "name", "{", "}", "[", "]", ":", "=", ".", "7", "'p.t'", "99999999999999999999999"];
    const BAD: &[&str] = &["@", ";", "\"", "😀", "-", "\u{7f}", "$", "$9", "_x", "'", "(", "e\u{301}\u{301}", "\u{200b}", "٣", "18446744073709551616", "👩‍👩‍👧", "\u{0}", "/*", "|"];
    let mut out = vec![];
    for base in BASES {
        let toks = tokens_of(base);
        for layout in 0..LAYOUTS {
            let mut add = |t: Vec<String>| out.push(with_deps(lay_out(&t, layout)));
            for i in 0..=toks.len() {
                // Every other layout takes every other way, except for the plain ones.
                let all = report.thorough || layout < 3;
                if i < toks.len() {
                    let mut t = toks.clone();
                    t.remove(i);
                    add(t);
                    let mut t = toks.clone();
                    t.insert(i, toks[i].clone());
                    add(t);
                    if i + 1 < toks.len() {
                        let mut t = toks.clone();
                        t.swap(i, i + 1);
                        add(t);
                    }
                    add(toks[..i].to_vec());
                }
                for (k, w) in WORDS.iter().chain(BAD).enumerate() {
                    if !all && (k + i + layout) % 4 != 0 {
                        continue;
                    }
                    let mut t = toks.clone();
                    t.insert(i, (*w).to_owned());
                    add(t.clone());
                    if i < toks.len() {
                        t.remove(i + 1);
                        add(t);
                    }
                }
                // A comment where there must not be one.
                let mut t = toks.clone();
                t.insert(i, "# stray".into());
                add(t);
            }
        }
        // Within words: any character of the plain text.
        for (i, _) in base.char_indices() {
            for c in BAD {
                let mut t = (*base).to_owned();
                t.insert_str(i, c);
                out.push(with_deps(t));
            }
            out.push(with_deps(base[..i].to_owned()));
        }
    }
    out
}

/// Schemas with mistakes in names, indices and types.
fn semantic(report: &Report) -> Vec<Files> {
    let mut out = vec![];
    let bases = [
        // Tokens which can be replaced by others, which are no mistakes of syntax.
        "import 'dep.t'\nimport 'sub/other.t' as b\n# A comment.\nstruct Foo {\n    # Comment of a field.\n    x: U64 = 0\n    optional y: [dep.A] = 1\n    asymmetric zed: b.A = 3\n    w = 4\n    deleted 2\n}\nchoice Bar {\n    a: Foo = 0\n    optional b: [[Qux]] = 1\n}\n# Of Qux,\n# long.\nstruct Qux {\n}\n",
    ];
    for base in bases {
        let toks = tokens_of(base);
        // Single replacements: every name by others, every index by others.
        let names: &[&str] = &["Foo", "foo", "Bar", "Qux", "x", "y", "Y", "zed", "a", "b", "dep", "nope"];
        let numbers: &[&str] = &["0", "1", "2", "3", "4", "5", "9", "4611686018427387903", "4611686018427387904", "18446744073709551615"];
        let mut edits: Vec<(usize, &str)> = vec![];
        for (i, t) in toks.iter().enumerate() {
            let list = if t.starts_with(|c: char| c.is_ascii_digit()) {
                numbers
            } else if t.starts_with(|c: char| c.is_alphabetic()) && !names::SCHEMA_KEYWORDS.contains(&t.as_str()) || t == "U64" {
                names
            } else {
                continue;
            };
            for w in list {
                if t != w {
                    edits.push((i, w));
                }
            }
        }
        let mut push = |list: &[(usize, &str)], layout: usize| {
            let mut t = toks.clone();
            for (i, w) in list {
                t[*i] = (*w).to_owned();
            }
            out.push(with_deps(lay_out(&t, layout)));
        };
        for e in &edits {
            for layout in 0..LAYOUTS {
                push(&[*e], layout);
            }
        }
        for (k, e) in edits.iter().enumerate() {
            for (m, f) in edits[..k].iter().enumerate() {
                if e.0 != f.0 && (report.thorough || (k + m) % 3 == 0) {
                    push(&[*f, *e], (k + m) % LAYOUTS);
                }
            }
        }
        if report.thorough {
            // Three mistakes, with the first alternative of each.
            let first: Vec<(usize, &str)> = edits.iter().copied().enumerate().filter(|(k, e)| *k == 0 || edits[k - 1].0 != e.0).map(|x| x.1).collect();
            for s in sequences(first.len(), 3).filter(|s| s.len() == 3 && s[0] < s[1] && s[1] < s[2]) {
                push(&[first[s[0]], first[s[1]], first[s[2]]], (s[0] + s[1] + s[2]) % LAYOUTS);
            }
        }
    }
    out
}

/// Mistakes in imports.
fn imports(report: &Report) -> Vec<Files> {
    let good = [("dep.t", "struct A {}\n"), ("sub/other.t", "import '../dep.t'\nstruct A {}\n"), ("sub/9.t", ""), ("a b.t", ""), ("Dep.t", "struct B {}\n"), ("sub/deep/x.t", "import '../other.t'\n")];
    let paths = ["nope.t", "sub", "sub/nope.t", "dep.t/x", "dep.t/", "", ".", "sub/9.t", "a b.t", "Dep.t", "../outside.t", "sub/../nope.t", "/dev/null"];
    let mut out = vec![];
    for from in ["main.t", "sub/other.t", "sub/deep/x.t"] {
        for p in paths {
            for q in paths.iter().chain(&["dep.t"]) {
                if !report.thorough && p != *q && from != "main.t" && *q != "dep.t" {
                    continue;
                }
                for layout in 0..LAYOUTS {
                    if layout > 2 && (p.len() + q.len() + layout) % 5 != 0 {
                        continue;
                    }
                    let mut files: Files = vec![("main.t".into(), "import 'dep.t'\nimport 'sub/deep/x.t'\nstruct M {\n    a: dep.A = 0\n}\n".into())];
                    files.extend(good.iter().map(|(n, t)| ((*n).to_owned(), (*t).to_owned())));
                    let at = files.iter().position(|f| f.0 == from).unwrap();
                    let up = "../".repeat(from.matches('/').count());
                    let go = |p: &str| if p.is_empty() || p.starts_with('/') { p.to_owned() } else { format!("{up}{p}") };
                    let fixed: Vec<String> = {
                        let mut t = tokens_of(&files[at].1);
                        let mut lead: Vec<String> = vec![];
                        for (k, x) in [p, q].iter().enumerate() {
                            lead.extend(["import".to_owned(), format!("'{}'", go(x)), "as".to_owned(), format!("new{k}")]);
                        }
                        // One before the others and one after them.
                        let last = t.iter().rposition(|w| w == "import").map_or(0, |i| i + 2);
                        let tail = lead.split_off(4);
                        for (n, w) in tail.into_iter().enumerate() {
                            t.insert(last + n, w);
                        }
                        lead.extend(t);
                        lead
                    };
                    files[at].1 = lay_out(&fixed, layout);
                    out.push(files);
                }
            }
        }
    }
    out
}

/// Mistakes in any of several files: of syntax, or else of other kinds.
fn many_files(thorough: bool) -> Vec<Files> {
    let names = ["main.t", "a.t", "sub/b.t", "sub/deep/c.t", "z.t"];
    let contents = |i: usize, state: usize| -> String {
        // Which files it imports: the first imports all, the others the next one.
        let lead: String = if i == 0 {
            names[1..].iter().map(|n| format!("import '{n}'\n")).collect()
        } else if i + 1 < names.len() {
            format!("import '{}{}' as next\n", "../".repeat(names[i].matches('/').count()), names[i + 1])
        } else {
            String::new()
        };
        match state {
            0 => format!("{lead}struct Ok {{\n    x: U64 = 0\n}}\n"),
            1 => format!("{lead}struct Ok {{\n    x: U64 = \n}}\n"),
            2 => format!("{lead}struct Ok {{\n    x: Nope = 0\n    x: U64 = 2\n}}\n"),
            3 => format!("{lead}\n\nstruct Ok {{\n    x: Ok = 0\n}}\n"),
            _ => format!("{lead}import 'missing.t'\n\n\nstruct Ok {{\n    x = 0\n}}\nstruct ok {{\n}}\n"),
        }
    };
    let mut out = vec![];
    for s in sequences(5, names.len()).filter(|s| s.len() == names.len()) {
        if !thorough && s.iter().filter(|x| **x == 4).count() > 1 {
            continue;
        }
        out.push(names.iter().enumerate().map(|(i, n)| ((*n).to_owned(), contents(i, s[i]))).collect());
    }
    out
}

/// Types which contain each other.
fn cycles(thorough: bool) -> Vec<Files> {
    let mut out = vec![];
    let n = 4;
    let edges: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    let homes = [[0, 0, 0, 0], [0, 1, 0, 1], [0, 1, 2, 2], [2, 1, 0, 0]];
    for m in 0_usize..1 << edges.len() {
        if m.count_ones() > if thorough { 6 } else { 4 } {
            continue;
        }
        let home = homes[m % homes.len()];
        let paths = ["main.t", "sub/b.t", "fooBar.t"];
        let mut files: Files = vec![];
        for (f, path) in paths.iter().enumerate() {
            let mut text = String::new();
            for (g, other) in paths.iter().enumerate() {
                if g != f {
                    text += &format!("import '{}{other}' as m{g}\n", "../".repeat(path.matches('/').count()));
                }
            }
            for a in (0..n).filter(|a| home[*a] == f) {
                text += &format!("\n{} {} {{\n", if a % 2 == 0 { "struct" } else { "choice" }, ["Foo", "barBaz", "qux_1", "A"][a]);
                for (k, (_, b)) in edges.iter().enumerate().filter(|(i, e)| m >> i & 1 == 1 && e.0 == a).map(|x| x.1).enumerate() {
                    let name = ["Foo", "barBaz", "qux_1", "A"][*b];
                    let name = if home[*b] == f { name.to_owned() } else { format!("m{}.{name}", home[*b]) };
                    text += &format!("    f{k}: {} = {k}\n", if (m + k) % 3 == 0 { format!("[{name}]") } else { name });
                }
                text += "}\n";
            }
            files.push(((*path).to_owned(), text));
        }
        out.push(files);
    }
    out
}

pub fn c18(report: &Report) -> i32 {
    let slow = std::env::var("MC_SLOW").is_ok();
    let judged = |list: Vec<Files>| -> (Vec<Files>, Vec<Judgement>) {
        let js = par_map(driver::THREADS, &list, |_, f| lang::judge(&f.iter().cloned().collect(), &f[0].0));
        let (mut a, mut b) = (vec![], vec![]);
        let mut seen = BTreeSet::new();
        for (f, j) in list.into_iter().zip(js) {
            if !j.ok() && seen.insert(mc::util::fnv(format!("{f:?}").as_bytes())) {
                a.push(f);
                b.push(j);
            }
        }
        (a, b)
    };
    let step = if report.thorough { 3 } else { 29 };
    for (what, list, alone_too) in [("syntax", syntax(report), true), ("semantic", semantic(report), true)] {
        let (files, js) = judged(list);
        report.add(what, files.len() as u64);
        // Those of one kind together: mistakes of syntax hide all the others, and they hide cycles.
        for kind in 0..3 {
            let of: Vec<&Files> = files.iter().zip(&js).filter(|(_, j)| kind == if !j.loading.is_empty() { 0 } else if !j.invalid.is_empty() { 1 } else { 2 }).map(|x| x.0).collect();
            let size = if kind == 2 { 1 } else { 60 };
            let chunks: Vec<&[&Files]> = of.chunks(size).collect();
            par_map(driver::THREADS, &chunks, |i, c| check_together(report, c, i % 9 == 4));
        }
        if alone_too {
            let some: Vec<&Files> = files.iter().step_by(step).collect();
            par_map(driver::THREADS, &some, |i, f| check_alone(report, f, i % 7 == 3));
        }
        if slow {
            eprintln!("{what}: at {:.1} s", report.seconds());
        }
    }
    for (what, list) in [("imports", imports(report)), ("many_files", many_files(report.thorough)), ("large", crate::large::all(report.thorough)), ("cycles", cycles(report.thorough))] {
        let (files, _) = judged(list);
        report.add(what, files.len() as u64);
        par_map(driver::THREADS, &files, |i, f| check_alone(report, f, i % 7 == 3));
        if slow {
            eprintln!("{what}: at {:.1} s", report.seconds());
        }
    }
    report.assume("lines end with line feeds; a mistake of syntax is where the text stops being the beginning of a schema");
    report.finish()
}
