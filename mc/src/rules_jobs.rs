//! The check that the generated types enforce the rules of fields: C19. Every client program is one line of
//! a file of its own, so that the verdict of the compiler can be told for each of them.
use crate::driver::{self, run, THREADS};
use crate::families;
use crate::report::Report;
use crate::rust_jobs::{self, source_files};
use mc::model::{Rule, Ty, Universe};
use mc::names;
use mc::util::{clip, par_map};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::Command;
use std::time::Duration;

/// A client program.
struct Line {
    text: String,
    /// Whether it has to compile.
    good: bool,
    /// What it does.
    what: String,
}

fn rust_ty(u: &Universe, ty: &Ty, dir: &str) -> String {
    match ty {
        Ty::Unit => "()".into(),
        Ty::F64 => "f64".into(),
        Ty::U64 => "u64".into(),
        Ty::S64 => "i64".into(),
        Ty::Bool => "bool".into(),
        Ty::Bytes => "Vec<u8>".into(),
        Ty::Str => "String".into(),
        Ty::Arr(t) => format!("Vec<{}>", rust_ty(u, t, dir)),
        Ty::Ref(i) => format!("{}{dir}", rust_name(u, *i)),
    }
}

fn rust_name(u: &Universe, i: usize) -> String {
    let d = &u.decls[i];
    format!("gen::{}::{}", u.rust_module(d.file), names::pascal(&d.name))
}

fn ts_ty(u: &Universe, ty: &Ty, dir: &str) -> String {
    match ty {
        Ty::Unit => "null".into(),
        Ty::F64 => "number".into(),
        Ty::U64 | Ty::S64 => "bigint".into(),
        Ty::Bool => "boolean".into(),
        Ty::Bytes => "ArrayBuffer".into(),
        Ty::Str => "string".into(),
        Ty::Arr(t) => format!("({})[]", ts_ty(u, t, dir)),
        Ty::Ref(i) => format!("{}{dir}", ts_name(u, *i)),
    }
}

fn ts_name(u: &Universe, i: usize) -> String {
    let d = &u.decls[i];
    format!("g.{}.{}", u.ts_module(d.file), names::pascal(&d.name))
}

fn rust_lines(u: &Universe) -> Vec<Line> {
    let mut out = vec![];
    for (i, d) in u.decls.iter().enumerate() {
        let name = rust_name(u, i);
        let show = |what: &str| format!("{what} of {}", u.decl_source(i).split_whitespace().collect::<Vec<_>>().join(" "));
        let mut add = |good: bool, what: String, text: String| {
            out.push(Line { text: text.replace("fn f", &format!("fn f{}", out.len())), good, what: show(&what) });
        };
        if d.choice {
            let pattern = |k: usize, all: bool| -> String {
                let f = &d.fields[k];
                let variant = format!("{name}In::{}", names::rust_ref(&names::pascal(&f.name)));
                let mut parts = vec![];
                if f.ty != Ty::Unit {
                    parts.push("_v");
                }
                if (f.rule == Rule::Opt) == all {
                    parts.push("_f");
                }
                if parts.is_empty() {
                    variant
                } else {
                    format!("{variant}({})", parts.join(", "))
                }
            };
            let arms = |skip: Option<usize>| -> String { (0..d.fields.len()).filter(|k| Some(*k) != skip).map(|k| format!(" {} => (),", pattern(k, true))).collect() };
            add(true, "a reader which handles all fields".into(), format!("fn f(x: {name}In) {{ match x {{{} }} }}", arms(None)));
            for (k, f) in d.fields.iter().enumerate() {
                let n = &f.name;
                let variant = format!("{name}Out::{}", names::rust_ref(&names::pascal(&f.name)));
                let unit = f.ty == Ty::Unit;
                let alone = if unit { variant.clone() } else { format!("{variant}(v)") };
                let with = if unit { format!("{variant}(b)") } else { format!("{variant}(v, b)") };
                let head = format!("fn f(v: {}, b: Box<{name}Out>) -> {name}Out", rust_ty(u, &f.ty, "Out"));
                add(f.rule == Rule::Req, format!("a writer of `{n}` without a fallback"), format!("{head} {{ {alone} }}"));
                add(f.rule != Rule::Req, format!("a writer of `{n}` with a fallback"), format!("{head} {{ {with} }}"));
                add(false, format!("a reader which does not handle `{n}`"), format!("fn f(x: {name}In) {{ match x {{{} }} }}", arms(Some(k))));
                add(false, format!("a reader of `{n}` with{} a fallback", if f.rule == Rule::Opt { "out" } else { "" }), format!("fn f(x: {name}In) {{ if let {} = x {{}} }}", pattern(k, false)));
                // The types.
                let v = if unit { "()" } else { "_v" };
                let b = if f.rule == Rule::Opt { "Some(_f)" } else { "None" };
                add(
                    true,
                    format!("a reader of `{n}`"),
                    format!("fn f(x: {name}In) -> Option<({}, Option<Box<{name}In>>)> {{ if let {} = x {{ Some(({v}, {b})) }} else {{ None }} }}", rust_ty(u, &f.ty, "In"), pattern(k, true)),
                );
            }
            continue;
        }
        // Values: present or absent.
        let head: String = d.fields.iter().enumerate().map(|(k, f)| format!("f{k}: {}, ", rust_ty(u, &f.ty, "Out"))).collect();
        let literal = |special: Option<(usize, &str)>, absent: bool| -> String {
            d.fields
                .iter()
                .enumerate()
                .map(|(k, f)| {
                    let value = match special {
                        Some((s, v)) if s == k => v.to_owned(),
                        _ if f.rule == Rule::Opt && absent => "None".into(),
                        _ if f.rule == Rule::Opt => format!("Some(f{k})"),
                        _ => format!("f{k}"),
                    };
                    format!(" {}: {value},", names::rust_ref(&names::snake(&f.name)))
                })
                .collect()
        };
        add(true, "a writer of all fields".into(), format!("fn f({head}) -> {name}Out {{ {name}Out {{{} }} }}", literal(None, false)));
        add(true, "a writer without the optional fields".into(), format!("fn f({head}) -> {name}Out {{ {name}Out {{{} }} }}", literal(None, true)));
        for (k, f) in d.fields.iter().enumerate() {
            let n = &f.name;
            let reference = names::rust_ref(&names::snake(&f.name));
            add(f.rule == Rule::Opt, format!("a writer without `{n}`"), format!("fn f({head}) -> {name}Out {{ {name}Out {{{} }} }}", literal(Some((k, "None")), false)));
            let t = rust_ty(u, &f.ty, "In");
            add(f.rule == Rule::Req, format!("a reader of `{n}` which does not handle its absence"), format!("fn f(x: {name}In) -> {t} {{ x.{reference} }}"));
            if f.rule != Rule::Req {
                add(true, format!("a reader of `{n}` which handles its absence"), format!("fn f(x: {name}In) -> Option<{t}> {{ x.{reference} }}"));
            }
        }
    }
    out
}

fn ts_lines(u: &Universe) -> Vec<Line> {
    let mut out = vec![];
    // What never exists can be taken for anything.
    let inhabited = u.inhabited();
    let possible = |ty: &Ty| mc::model::ty_inhabited(ty, &inhabited);
    for (i, d) in u.decls.iter().enumerate() {
        let name = ts_name(u, i);
        let show = |what: &str| format!("{what} of {}", u.decl_source(i).split_whitespace().collect::<Vec<_>>().join(" "));
        let mut add = |good: bool, what: String, text: String| {
            out.push(Line { text: text.replace("function f", &format!("export function f{}", out.len())), good, what: show(&what) });
        };
        if d.choice {
            let cases = |skip: Option<usize>| -> String {
                d.fields.iter().enumerate().filter(|(k, _)| Some(*k) != skip).map(|(k, f)| format!(" case '{}': return {k};", names::ts_field(&f.name))).collect()
            };
            if !d.fields.is_empty() {
                add(true, "a reader which handles all fields".into(), format!("function f(x: {name}In): number {{ switch (x.$field) {{{} default: return g.unreachable(x); }} }}", cases(None)));
            }
            for (k, f) in d.fields.iter().enumerate() {
                let (n, key) = (&f.name, names::ts_field(&f.name));
                let head = format!("function f(v: {}, b: {name}Out, w: void): {name}Out", ts_ty(u, &f.ty, "Out"));
                add(f.rule == Rule::Req, format!("a writer of `{n}` without a fallback"), format!("{head} {{ return {{ {key}: v }}; }}"));
                if f.rule != Rule::Req {
                    add(true, format!("a writer of `{n}` with a fallback"), format!("{head} {{ return {{ {key}: v, $fallback: b }}; }}"));
                    add(false, format!("a writer of `{n}` with an undefined fallback"), format!("{head} {{ return {{ {key}: v, $fallback: undefined }}; }}"));
                    add(false, format!("a writer of `{n}` with a fallback of another type"), format!("{head} {{ return {{ {key}: v, $fallback: w }}; }}"));
                }
                add(false, format!("a writer of `{n}` with a value of another type"), format!("{head} {{ return {{ {key}: w, $fallback: b }}; }}"));
                add(
                    false,
                    format!("a reader which does not handle `{n}`"),
                    format!("function f(x: {name}In): number {{ switch (x.$field) {{{} default: return g.unreachable(x); }} }}", cases(Some(k))),
                );
                let t = ts_ty(u, &f.ty, "In");
                add(true, format!("a reader of `{n}`"), format!("function f(x: {name}In): {t} | undefined {{ if (x.$field === '{key}') {{ const v: {t} = x.{key}; return v; }} return undefined; }}"));
                add(
                    false,
                    format!("a reader of `{n}` with a value of another type"),
                    format!("function f(x: {name}In): {{ $wrong: symbol }} | undefined {{ if (x.$field === '{key}') {{ return x.{key}; }} return undefined; }}"),
                );
                add(
                    f.rule == Rule::Opt,
                    format!("a reader of the fallback of `{n}`"),
                    format!("function f(x: {name}In): {name}In | undefined {{ if (x.$field === '{key}') {{ const b: {name}In = x.$fallback; return b; }} return undefined; }}"),
                );
                if f.rule == Rule::Opt {
                    add(
                        false,
                        format!("a reader of the fallback of `{n}` as another type"),
                        format!("function f(x: {name}In): {{ $wrong: symbol }} | undefined {{ if (x.$field === '{key}') {{ return x.$fallback; }} return undefined; }}"),
                    );
                }
            }
            continue;
        }
        let head: String = d.fields.iter().enumerate().map(|(k, f)| format!("f{k}: {}, ", ts_ty(u, &f.ty, "Out"))).collect::<String>() + "w: void";
        // (`None` leaves it out.)
        let literal = |special: Option<(usize, Option<&str>)>, absent: bool| -> String {
            d.fields
                .iter()
                .enumerate()
                .filter_map(|(k, f)| {
                    let value = match special {
                        Some((s, v)) if s == k => v?.to_owned(),
                        _ if f.rule == Rule::Opt && absent => "undefined".into(),
                        _ => format!("f{k}"),
                    };
                    Some(format!(" {}: {value},", names::ts_field(&f.name)))
                })
                .collect()
        };
        let writer = |l: String| format!("function f({head}): {name}Out {{ return {{{l} }}; }}");
        add(true, "a writer of all fields".into(), writer(literal(None, false)));
        add(true, "a writer without the optional fields".into(), writer(literal(None, true)));
        for (k, f) in d.fields.iter().enumerate() {
            let (n, key) = (&f.name, names::ts_field(&f.name));
            add(f.rule == Rule::Opt, format!("a writer with `{n}` undefined"), writer(literal(Some((k, Some("undefined"))), false)));
            if f.rule != Rule::Opt {
                add(false, format!("a writer without `{n}`"), writer(literal(Some((k, None)), false)));
            }
            add(false, format!("a writer of another type for `{n}`"), writer(literal(Some((k, Some("w"))), false)));
            let t = ts_ty(u, &f.ty, "In");
            add(f.rule == Rule::Req, format!("a reader of `{n}` which does not handle its absence"), format!("function f(x: {name}In): {t} {{ return x.{key}; }}"));
            if f.rule != Rule::Req {
                add(true, format!("a reader of `{n}` which handles its absence"), format!("function f(x: {name}In): {t} | undefined {{ return x.{key}; }}"));
            }
            if !possible(&f.ty) {
                continue;
            }
            add(false, format!("a reader of `{n}` as another type"), format!("function f(x: {name}In): {{ $wrong: symbol }} | undefined {{ return x.{key}; }}"));
        }
    }
    out
}

/// The lines with errors, of the client and of the generated code: (line, message).
fn verdicts(text: &str, ext: &str) -> (BTreeMap<usize, String>, Vec<String>) {
    let (mut client, mut other) = (BTreeMap::new(), vec![]);
    for l in text.lines() {
        let number = if ext == "rs" { l.strip_prefix("main.rs:").and_then(|r| r.split(':').next()) } else { l.strip_prefix("main.ts(").and_then(|r| r.split(',').next()) };
        if !l.contains("error") {
            continue;
        }
        if let Some(n) = number.and_then(|n| n.parse().ok()) {
            client.entry(n).or_insert_with(|| l.to_owned());
        } else if l.starts_with("gen.") || (ext == "ts" && l.starts_with("error")) || l.starts_with("error: internal") {
            other.push(l.to_owned());
        }
    }
    (client, other)
}

fn check(report: &Report, u: &Universe, dir: &Path, rust: bool) {
    std::fs::create_dir_all(dir).unwrap();
    if !rust_jobs::generate(report, u, dir, rust, !rust) {
        return;
    }
    let ext = if rust { "rs" } else { "ts" };
    let language = if rust { "Rust" } else { "TypeScript" };
    let lines = if rust { rust_lines(u) } else { ts_lines(u) };
    let head = if rust { "#![allow(warnings)] mod gen;" } else { "import * as g from './gen';" };
    let mut text = format!("{head}\n");
    for l in &lines {
        assert!(!l.text.contains('\n'));
        text += &l.text;
        text.push('\n');
    }
    std::fs::write(dir.join(format!("main.{ext}")), &text).unwrap();
    let ran = if rust {
        run(
            driver::rustc().current_dir(dir).args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "all", "--emit", "metadata", "--error-format", "short", "-Cdebuginfo=0", "-o", "all.rmeta", "main.rs"]),
            None,
            Duration::from_secs(600),
        )
    } else {
        let mut c = Command::new(Path::new(driver::NODE_MODULES).join(".bin/tsc"));
        c.current_dir(dir).args(["--strict", "--noEmit", "--pretty", "false", "--target", "es2020", "--moduleResolution", "node", "--lib", "es2016,es2017.string,es2017.object,es2018.asynciterable,es2020.bigint,dom", "main.ts"]);
        let mut ran = run(&mut c, None, Duration::from_secs(600));
        ran.err.extend(ran.out.clone());
        ran
    };
    report.add("compilations", 1);
    report.add("types", u.decls.len() as u64);
    let (errors, other) = verdicts(&ran.err_text(), ext);
    let mut files = source_files(u);
    files.push((format!("main.{ext}"), text.into_bytes()));
    if let Ok(g) = std::fs::read(dir.join(format!("gen.{ext}"))) {
        files.push((format!("gen.{ext}"), g));
    }
    // (That the generated code itself type-checks is for C08 and C09. The TypeScript compiler reports all errors in any case.)
    if ran.code.is_none() || (rust && !other.is_empty()) || (!ran.ok() && errors.is_empty()) {
        report.violation(&format!("the generated {language} code does not compile: {}", clip(&ran.err_text(), 2000)), &files);
        return;
    }
    let mut shown = 0;
    for (i, l) in lines.iter().enumerate() {
        report.add(if l.good { "followed" } else { "broken" }, 1);
        let error = errors.get(&(i + 2));
        if error.is_none() != l.good && shown < 3 {
            shown += 1;
            let verdict = error.map_or("it compiles".to_owned(), |e| format!("it does not: {e}"));
            report.violation(&format!("{language}: {} should {}compile, but {verdict}\n{}", l.what, if l.good { "" } else { "not " }, l.text), &files);
        }
    }
    if std::env::var("MC_KEEP").map_or(true, |v| v.is_empty()) {
        let _ = std::fs::remove_dir_all(dir);
    }
}

pub fn c19(report: &Report) -> i32 {
    let mut specs = families::singles(0..=if report.thorough { 6 } else { 4 });
    specs.extend(families::combinations(1..=if report.thorough { 7 } else { 5 }));
    specs.extend(families::degenerate());
    specs.extend(families::wide(if report.thorough { &[12, 33, 70][..] } else { &[12, 33][..] }));
    specs.extend(families::places());
    let universes = families::pack(&specs, 60);
    let base = driver::scratch();
    let jobs: Vec<(usize, bool)> = (0..universes.len()).flat_map(|k| [(k, false), (k, true)]).collect();
    par_map(THREADS, &jobs, |_, (k, rust)| check(report, &universes[*k], &base.join(format!("{k}{rust}")), *rust));
    report.assume("a program which breaks a rule is one which does not type-check with rustc 1.85 or tsc --strict; TypeScript lets writers give a fallback which is not needed");
    report.finish()
}
