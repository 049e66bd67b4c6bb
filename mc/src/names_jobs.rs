//! The checks that generated code compiles: C08 and C09. Universes are generated one by one and
//! compiled many at once, each as a module of its own together with a client which uses all of it.
use crate::driver::{self, run, THREADS};
use crate::families;
use crate::report::Report;
use crate::rust_jobs::{self, source_files};
use mc::client;
use mc::lang;
use mc::model::{field, Rule, Ty, Universe, RULES};
use mc::names;
use mc::util::{clip, json_str, par_map};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

#[derive(Clone)]
pub struct Job {
    pub u: Universe,
    pub what: String,
    /// The known finding because of which this does not compile.
    pub known: Option<&'static str>,
}

pub fn job(what: impl Into<String>, u: Universe) -> Job {
    Job { u, what: what.into(), known: None }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Language {
    Rust,
    TypeScript,
}

/// How a Rust program is put together.
#[derive(Clone, Copy, PartialEq)]
pub enum Layout {
    /// The generated code in modules at the top of the crate.
    Module,
    /// Included in modules further below.
    Included,
    /// In a crate of its own.
    Crate,
}

/// The numbers of the files an error output is about.
fn blamed(text: &str) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    for line in text.lines() {
        for prefix in ["gen", "use"] {
            for (at, _) in line.match_indices(prefix) {
                let rest = &line[at + 3..];
                let digits: String = rest.chars().take_while(char::is_ascii_digit).collect();
                let rest = &rest[digits.len()..];
                if rest.starts_with(".rs:") || rest.starts_with(".ts(") || rest.starts_with(".ts:") || rest.starts_with(".mjs") {
                    if let Ok(n) = digits.parse() {
                        out.insert(n);
                    }
                }
            }
        }
    }
    out
}

/// Compile some of the modules of a directory.
fn compile(dir: &Path, language: Language, (edition, layout): (&str, Layout), which: &[usize]) -> driver::Ran {
    match language {
        Language::Rust => {
            let list = |f: &dyn Fn(usize) -> String| format!("#![allow(warnings)]\n{}", which.iter().map(|i| f(*i) + "\n").collect::<String>());
            let rustc = |name: &str, file: &str, more: &[&str]| {
                let mut c = driver::rustc();
                c.current_dir(dir).args(["--edition", edition, "--crate-type", "lib", "--crate-name", name, "--emit", "metadata", "--error-format", "short", "-Cdebuginfo=0", "-o"]);
                c.arg(format!("lib{name}.rmeta")).arg(file).args(more);
                run(&mut c, None, Duration::from_secs(600))
            };
            let user = |i: usize| format!("#[path = \"use{i}.rs\"] mod use{i};");
            if layout == Layout::Crate {
                std::fs::write(dir.join("made.rs"), list(&|i| format!("#[path = \"gen{i}.rs\"] pub mod gen{i};"))).unwrap();
                let ran = rustc("made", "made.rs", &[]);
                if !ran.ok() {
                    return ran;
                }
                std::fs::write(dir.join("lib.rs"), list(&|i| format!("use made::gen{i};\n{}", user(i))).replacen('\n', "\nextern crate made;\n", 1)).unwrap();
                return rustc("all", "lib.rs", &["--extern", "made=libmade.rmeta"]);
            }
            let place = |i: usize| match layout {
                Layout::Included => format!("mod around{i} {{ pub mod inside {{ include!(\"gen{i}.rs\"); }} }}\nuse around{i}::inside as gen{i};"),
                _ => format!("#[path = \"gen{i}.rs\"] mod gen{i};"),
            };
            std::fs::write(dir.join("lib.rs"), list(&|i| format!("{}\n{}", place(i), user(i)))).unwrap();
            rustc("all", "lib.rs", &[])
        }
        Language::TypeScript => {
            let mut c = Command::new(Path::new(driver::NODE_MODULES).join(".bin/tsc"));
            c.current_dir(dir).args(["--strict", "--noEmit", "--pretty", "false", "--target", "es2020", "--moduleResolution", "node", "--lib", "es2016,es2017.string,es2017.object,es2018.asynciterable,es2020.bigint,dom"]);
            for i in which {
                c.args([format!("gen{i}.ts"), format!("use{i}.ts")]);
            }
            let mut ran = run(&mut c, None, Duration::from_secs(600));
            // (Errors come on the standard output.)
            ran.err.extend(ran.out.clone());
            if !ran.ok() {
                return ran;
            }
            // Remove the types, load, and look at what there is.
            let mut c = Command::new(Path::new(driver::NODE_MODULES).join(".bin/esbuild"));
            c.current_dir(dir).args(["--outdir=js", "--out-extension:.js=.mjs", "--format=esm", "--target=es2020", "--log-level=error"]);
            let mut load = String::from("const errors = [];\nconst main = async () => {\n");
            for i in which {
                c.arg(format!("gen{i}.ts"));
                let paths = std::fs::read_to_string(dir.join(format!("paths{i}.json"))).unwrap();
                load += &format!(
                    "try {{ const m = await import('./js/gen{i}.mjs'); for (const p of {paths}) {{ let x = m; for (const c of p) x = x[c]; for (const f of ['size', 'serialize', 'deserialize']) if (typeof x[f] !== 'function') throw new Error('no function ' + f + ' in ' + p.join('.')); }} }} catch (e) {{ errors.push('gen{i}.mjs: ' + (e && e.stack || e)); }}\n"
                );
            }
            load += "console.error(errors.join('\\n')); process.exit(errors.length ? 1 : 0);\n};\nmain();\n";
            std::fs::write(dir.join("load.mjs"), load).unwrap();
            let ran = run(&mut c, None, Duration::from_secs(300));
            if !ran.ok() {
                return ran;
            }
            run(Command::new("node").current_dir(dir).arg("load.mjs"), None, Duration::from_secs(300))
        }
    }
}

fn prepare(report: &Report, dir: &Path, i: usize, j: &Job, language: Language) -> bool {
    let sub = dir.join(format!("d{i}"));
    std::fs::create_dir_all(&sub).unwrap();
    let rust = language == Language::Rust;
    if !rust_jobs::generate(report, &j.u, &sub, rust, !rust) {
        return false;
    }
    if rust {
        std::fs::rename(sub.join("gen.rs"), dir.join(format!("gen{i}.rs"))).unwrap();
        std::fs::write(dir.join(format!("use{i}.rs")), client::rust(&j.u, &format!("gen{i}"))).unwrap();
    } else {
        std::fs::rename(sub.join("gen.ts"), dir.join(format!("gen{i}.ts"))).unwrap();
        std::fs::write(dir.join(format!("use{i}.ts")), client::typescript(&j.u, &format!("gen{i}"))).unwrap();
        let paths: Vec<String> = j
            .u
            .decls
            .iter()
            .map(|d| {
                let mut p: Vec<String> = j.u.ts_module(d.file).split('.').map(json_str).collect();
                p.push(json_str(&names::ts_type(&d.name)));
                format!("[{}]", p.join(", "))
            })
            .collect();
        std::fs::write(dir.join(format!("paths{i}.json")), format!("[{}]", paths.join(", "))).unwrap();
    }
    let _ = std::fs::remove_dir_all(sub);
    true
}

/// Compile all of a batch; those which fail are confirmed one by one.
fn batch(report: &Report, dir: &Path, jobs: &[&Job], language: Language, place: (&str, Layout)) {
    std::fs::create_dir_all(dir).unwrap();
    let mut left: Vec<usize> = (0..jobs.len()).filter(|i| prepare(report, dir, *i, jobs[*i], language)).collect();
    report.add("modules", left.len() as u64);
    report.add("types", left.iter().map(|i| jobs[*i].u.decls.len() as u64).sum());
    let mut queue = vec![std::mem::take(&mut left)];
    while let Some(some) = queue.pop() {
        if some.is_empty() {
            continue;
        }
        let start = std::time::Instant::now();
        let ran = compile(dir, language, place, &some);
        if std::env::var("MC_SLOW").is_ok() {
            let lines = |i: &usize| std::fs::read_to_string(dir.join(format!("gen{i}.{}", if language == Language::Rust { "rs" } else { "ts" }))).map_or(0, |t| t.lines().count());
            eprintln!("{:.1} s: {} modules, {} lines, {}", start.elapsed().as_secs_f64(), some.len(), some.iter().map(lines).sum::<usize>(), jobs[some[0]].what);
        }
        report.add("compilations", 1);
        if ran.ok() {
            report.add("modules_compiled", some.len() as u64);
            for i in &some {
                if let Some(id) = jobs[*i].known {
                    report.note(&format!("{id} in {}", jobs[*i].what), "compiles now");
                }
            }
            continue;
        }
        if some.len() == 1 {
            let j = jobs[some[0]];
            let name = if language == Language::Rust { "Rust" } else { "TypeScript" };
            let what = format!("the generated {name} code (or the code using its documented interface) does not compile ({}{}): {}", j.what, if language == Language::Rust { format!("; edition {}", place.0) } else { String::new() }, clip(&ran.err_text(), 3000));
            let mut files = source_files(&j.u);
            let ext = if language == Language::Rust { "rs" } else { "ts" };
            for f in ["gen", "use"] {
                if let Ok(b) = std::fs::read(dir.join(format!("{f}{}.{ext}", some[0]))) {
                    files.push((format!("{f}.{ext}"), b));
                }
            }
            match j.known {
                Some(id) => report.finding(id, 1, &what, &files),
                None => report.violation(&what, &files),
            }
            continue;
        }
        let bad: BTreeSet<usize> = blamed(&ran.err_text()).into_iter().filter(|i| some.contains(i)).collect();
        if bad.is_empty() || bad.len() == some.len() {
            let half = some[some.len() / 2..].to_vec();
            queue.push(some[..some.len() / 2].to_vec());
            queue.push(half);
        } else {
            queue.push(some.iter().copied().filter(|i| !bad.contains(i)).collect());
            queue.extend(bad.into_iter().map(|i| vec![i]));
        }
    }
    if std::env::var("MC_KEEP").map_or(true, |v| v.is_empty()) {
        let _ = std::fs::remove_dir_all(dir);
    }
}

/// Compile all the jobs, in batches of about so many types.
pub fn run_all(report: &Report, jobs: &[Job], language: Language, place: (&str, Layout), per: usize) {
    // First those which are known to fail, each on its own.
    let mut batches: Vec<Vec<&Job>> = vec![];
    let mut size = 0;
    for j in jobs.iter() {
        if j.known.is_some() {
            batches.insert(0, vec![j]);
            continue;
        }
        if size == 0 || size + j.u.decls.len() + 8 > per || batches.last().is_none_or(|b| b[0].known.is_some()) {
            batches.push(vec![]);
            size = 0;
        }
        size += j.u.decls.len() + 8;
        batches.last_mut().unwrap().push(j);
    }
    let tag = if language == Language::Rust { "r" } else { "t" };
    let base: PathBuf = driver::scratch();
    par_map(THREADS, &batches, |k, b| batch(report, &base.join(format!("{tag}{k}")), b, language, place));
}

/// Identifiers in a text.
fn identifiers(text: &str, out: &mut BTreeSet<String>) {
    for w in text.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
        if w.starts_with(char::is_alphabetic) && w.len() <= 40 {
            out.insert(w.to_owned());
        }
    }
}

const WELL_KNOWN: &[&str] = &[
    // Rust
    "Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "Box", "Default", "Clone", "Copy", "Debug", "Eq", "Hash", "Iterator", "Into", "From", "TryFrom",
    "ToString", "ToOwned", "AsRef", "Drop", "Fn", "Send", "Sync", "Sized", "Unpin", "Extend", "core", "alloc", "std", "str", "char", "i8", "i16", "i32", "i64", "i128",
    "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f32", "f64", "bool", "drop", "print", "println", "panic", "vec", "format", "assert", "derive", "test", "main",
    "Serialize", "Deserialize", "serialize", "deserialize", "prelude", "macro_rules", "cfg", "allow", "mem", "io", "cmp", "fmt", "marker", "ops", "never",
    // TypeScript and JavaScript
    "Array", "ArrayBuffer", "BigInt", "BigInt64Array", "BigUint64Array", "Boolean", "DataView", "Date", "Error", "EvalError", "Float32Array", "Float64Array", "Function",
    "Infinity", "Int8Array", "Int16Array", "Int32Array", "JSON", "Map", "Math", "NaN", "Number", "Object", "Promise", "Proxy", "RangeError", "ReferenceError", "Reflect",
    "RegExp", "Set", "SharedArrayBuffer", "Symbol", "SyntaxError", "TypeError", "URIError", "Uint8Array", "Uint8ClampedArray", "Uint16Array", "Uint32Array", "WeakMap",
    "WeakSet", "Window", "Document", "globalThis", "arguments", "eval", "prototype", "__proto__", "proto", "constructor", "length", "name", "caller", "callee", "toJSON", "then",
    "isNaN", "parseInt", "exports", "module", "require", "process", "Buffer", "window", "self", "document", "console", "Record", "Partial", "Readonly", "Exclude", "Pick", "Omit", "Event", "Node", "Text", "Comment", "Range", "File",
    // Conventions
    "a", "aB", "ABC", "aBC", "X1Y2", "a1", "b_1", "c_", "d__e", "HTTPServer", "in", "out", "atlas", "In", "Out", "Atlas", "value_in", "fooOut", "barAtlas", "unit", "field", "fallback",
    "import", "choice", "struct", "deleted", "optional", "asymmetric", "Unit", "Bytes", "é", "Ünïcode", "straße", "ǆ", "ǅx", "İz", "ΣΑΣ", "中文", "π2", "ñandú", "ﬁx", "ŉa", "ᾳ", "कख", "𝒳y", "ⅷ",
];

/// The names to try: those in the generated code itself, keywords, and well-known ones.
pub fn interesting(report: &Report) -> Vec<String> {
    let mut set: BTreeSet<String> = BTreeSet::new();
    let dir = driver::scratch().join("harvest");
    let mut u = Universe::new("q");
    let inner = u.add(0, "R", false, vec![field("z", Rule::Req, Ty::Unit, 0)]);
    for ty in [Ty::Unit, Ty::F64, Ty::U64, Ty::S64, Ty::Bool, Ty::Bytes, Ty::Str, Ty::Ref(inner)] {
        for depth in 0..4 {
            for choice in [false, true] {
                let n = u.decls.len();
                u.add(0, &format!("q{n}"), choice, (0..3).map(|i| field(["y", "z", "x"][i], RULES[i], ty.clone().arr_n(depth), i as u64)).collect());
            }
        }
    }
    std::fs::create_dir_all(&dir).unwrap();
    if rust_jobs::generate(report, &u, &dir, true, true) {
        for f in ["gen.rs", "gen.ts"] {
            identifiers(&std::fs::read_to_string(dir.join(f)).unwrap_or_default(), &mut set);
        }
    }
    // Not those which come from this schema (they are numbered).
    set.retain(|w| !w.strip_prefix('Q').is_some_and(|r| r.starts_with(|c: char| c.is_ascii_digit())));
    let listed = names::RUST_KEYWORDS.iter().chain(names::TS_KEYWORDS).chain(names::JS_OBJECT_PROPERTIES).chain(names::SCHEMA_KEYWORDS).chain(WELL_KNOWN);
    set.extend(listed.map(|w| (*w).to_owned()));
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut out = vec![];
    for w in set {
        // Names of types are converted, so several spellings are the same.
        if lang::is_ident_start(w.chars().next().unwrap()) && w.chars().all(lang::is_ident_part) && seen.insert(names::pascal(&w)) && seen.insert(format!(" {}", names::snake(&w))) {
            out.push(w);
        }
    }
    out
}

/// Every name as a field, with every rule, type, and kind of type around it.
pub fn as_fields(list: &[String], out: &mut Vec<Job>) {
    for chunk in list.chunks(6) {
        let mut u = Universe::new("main");
        let inner = u.add(0, "Inner", false, vec![field("x", Rule::Req, Ty::U64, 0)]);
        let types = [Ty::Unit, Ty::U64, Ty::Bytes, Ty::Ref(inner), Ty::Str.arr(), Ty::Ref(inner).arr_n(2), Ty::F64, Ty::S64.arr(), Ty::Bool];
        let mut n = 0;
        for three in chunk.chunks(3) {
            for choice in [false, true] {
                for t in 0..types.len() {
                    for r in 0..3 {
                        // All types with all rules for the first name; the others follow along.
                        let fields = three.iter().enumerate().map(|(i, w)| field(w, RULES[(r + i) % 3], types[(t + 2 * i) % types.len()].clone(), i as u64)).collect();
                        u.add(0, &format!("T{n}"), choice, fields);
                        n += 1;
                    }
                }
            }
        }
        out.push(job(format!("fields named {chunk:?}"), u));
    }
}

/// Every name as a struct and as a choice, used from its own file and from another one.
pub fn as_types(list: &[String], out: &mut Vec<Job>) {
    for chunk in list.chunks(8) {
        for flip in [false, true] {
            let mut u = Universe::new("main");
            let other = u.file("other");
            let mut refs = vec![];
            for (i, w) in chunk.iter().enumerate() {
                for f in [0, other] {
                    let choice = (i + f) % 2 == usize::from(flip);
                    refs.push(u.add(f, w, choice, vec![field("a", RULES[i % 3], Ty::Bytes, 0), field("b", Rule::Req, Ty::Unit, 1)]));
                }
            }
            for choice in [false, true] {
                for f in [0, other] {
                    let fields = refs
                        .iter()
                        .enumerate()
                        .map(|(i, r)| field(&format!("f{i}x"), if i == 0 { Rule::Req } else { RULES[i % 3] }, if i % 4 < 2 { Ty::Ref(*r) } else { Ty::Ref(*r).arr_n(i % 3 + 1) }, i as u64))
                        .collect();
                    u.add(f, if choice { "UseAsChoice" } else { "UseAsStruct" }, choice, fields);
                }
            }
            out.push(job(format!("types named {chunk:?}"), u));
        }
    }
}

/// Types in all of some files, which refer to each other.
fn all_to_all(language: Language, u: &mut Universe, type_names: &[&str]) {
    let mut refs = vec![];
    for f in 0..u.files.len() {
        for (i, t) in type_names.iter().enumerate() {
            if type_names[..i].iter().any(|other| lang::same_name(t, other)) {
                continue;
            }
            // This is the known finding D28.
            let below = format!("{}/{t}", u.files[f]);
            if language == Language::TypeScript && u.files.iter().any(|g| g.split('/').count() == below.split('/').count() && g.split('/').zip(below.split('/')).all(|(a, b)| lang::same_name(a, b))) {
                continue;
            }
            refs.push(u.add(f, t, (i + f) % 2 == 1, vec![field("a", Rule::Req, Ty::U64, 0)]));
        }
    }
    for f in 0..u.files.len() {
        for choice in [false, true] {
            let fields = refs.iter().enumerate().map(|(i, r)| field(&format!("f{i}x"), RULES[i % 3], if i % 2 == 0 { Ty::Ref(*r) } else { Ty::Ref(*r).arr() }, i as u64)).collect();
            u.add(f, if choice { "AllChoice" } else { "AllStruct" }, choice, fields);
        }
    }
}

/// Every name as a file, at the top, among others, in a directory of the same name, and as the root.
pub fn as_files(language: Language, list: &[String], out: &mut Vec<Job>) {
    let list: Vec<&String> = list.iter().filter(|w| lang::namespace_valid(&[names::snake(w)])).collect();
    for (i, w) in list.iter().copied().enumerate() {
        let next = &list[(i + 1) % list.len()];
        let mut u = Universe::new("main");
        for f in [w.clone(), format!("{w}/{w}"), format!("dir/{w}"), format!("{w}/{next}/leaf")] {
            u.file(&f);
        }
        all_to_all(language, &mut u, &[w, "Leaf"]);
        out.push(job(format!("files and directories named {w:?}"), u));
        let mut u = Universe::new(w);
        for f in ["other".to_owned(), format!("dir/{w}/x"), "dir/y".into()] {
            u.file(&f);
        }
        all_to_all(language, &mut u, &[w, "Dir"]);
        out.push(job(format!("a root named {w:?}"), u));
    }
}

/// All sets of files among some paths which are prefixes and namesakes of each other, with types named
/// like them.
pub fn trees(language: Language, thorough: bool, out: &mut Vec<Job>) {
    let paths = ["a", "b", "a/a", "a/b", "b/a", "a/a/a", "a/b/a", "b/a/b", "c/a/b", "aB", "a/aB", "a_in"];
    for i in 0..paths.len() {
        for j in 0..paths.len() {
            if i == j {
                continue;
            }
            for k in 0..=paths.len() {
                if k < paths.len() && (k <= j || k == i) || paths[i].contains('/') {
                    // The root is at the top.
                    continue;
                }
                if !thorough && k < paths.len() && (i + j + k) % 3 != 0 {
                    continue;
                }
                let mut u = Universe::new(paths[i]);
                u.file(paths[j]);
                if k < paths.len() {
                    u.file(paths[k]);
                }
                let last = |p: &str| p.rsplit('/').next().unwrap().to_owned();
                all_to_all(language, &mut u, &["a", "b"]);
                out.push(job(format!("files {:?}", u.files), u));
                let mut u = Universe::new(paths[i]);
                u.file(paths[j]);
                let name = last(paths[j]);
                all_to_all(language, &mut u, &["bOut", "AAtlas", "aIn", &name]);
                if k == paths.len() {
                    out.push(job(format!("files {:?} with types like their parts", u.files), u));
                }
            }
        }
    }
}

/// Remove what is the known finding D29: fields which are arrays of choices without fields.
fn without_arrays_of_nothing(u: &mut Universe) {
    let nothing: Vec<bool> = u.decls.iter().map(|d| d.choice && d.fields.is_empty()).collect();
    fn hit(t: &Ty, nothing: &[bool], depth: usize) -> bool {
        match t {
            Ty::Arr(t) => hit(t, nothing, depth + 1),
            Ty::Ref(i) => depth > 0 && nothing[*i],
            _ => false,
        }
    }
    for d in &mut u.decls {
        // (Choices which lose all of their fields would become such types themselves.)
        for f in d.fields.iter_mut().filter(|f| hit(&f.ty, &nothing, 0)) {
            f.ty = Ty::Str.arr();
        }
    }
}

/// What the types are made of.
pub fn shapes(language: Language, thorough: bool, out: &mut Vec<Job>) {
    for (i, mut u) in families::standard(thorough).into_iter().enumerate() {
        if language == Language::TypeScript {
            without_arrays_of_nothing(&mut u);
        }
        out.push(job(format!("types of every shape, part {i}"), u));
    }
    // Nothing at all, files without types, types without fields.
    out.push(job("nothing", Universe::new("main")));
    let mut u = Universe::new("main");
    u.file("empty");
    u.file("dir/empty");
    out.push(job("nothing, in three files", u.clone()));
    u.add(2, "Nil", false, vec![]);
    u.add(2, "Never", true, vec![]);
    out.push(job("types without fields", u));
    // A choice which only has optional or asymmetric fields, alone and in others.
    for rule in RULES {
        let mut u = Universe::new("main");
        let never = u.add(0, "Never", true, vec![]);
        let only = u.add(0, "Only", true, vec![field("x", rule, Ty::Unit, 0)]);
        let both = u.add(0, "Both", true, vec![field("x", rule, Ty::Ref(never), 0), field("y", rule, Ty::Ref(only), 1)]);
        u.add(0, "Holds", false, vec![field("x", rule, Ty::Ref(never), 0), field("y", rule, Ty::Ref(both).arr(), 1), field("z", rule, Ty::Ref(only), 7)]);
        out.push(job(format!("choices without values, {rule:?}"), u));
    }
}

/// Very many files and types, very deep directories, very long names.
fn large(thorough: bool, out: &mut Vec<Job>) {
    for n in if thorough { vec![34, 66, 130, 300] } else { vec![34, 130] } {
        // Many files in directories of some depth; references to any of those before.
        let mut u = Universe::new("main");
        for i in 0..n {
            u.file(&format!("{}f{i}x", ["", "sub/", "sub/sub/", "other/d/e/"][i % 4]));
        }
        let mut all: Vec<usize> = vec![];
        for f in (0..=n).rev() {
            let len = all.len();
            let to: Vec<usize> = if len == 0 { vec![] } else { [len - 1, 0, len / 2, len.saturating_sub(4), (len * 7) % len.max(1)].iter().map(|k| all[*k]).collect() };
            let fields = to.iter().enumerate().map(|(k, t)| field(&format!("v{k}"), RULES[(f + k) % 3], if k % 2 == 0 { Ty::Ref(*t) } else { Ty::Ref(*t).arr() }, k as u64)).collect();
            all.push(u.add(f, ["Thing", "Item"][f % 2], false, fields));
        }
        out.push(job(format!("{n} files"), u));
        // Many types in one file and its neighbour.
        let mut u = Universe::new("main");
        u.file("next");
        let mut all: Vec<usize> = vec![];
        for i in 0..n {
            let to: Vec<usize> = if i == 0 { vec![] } else { [i - 1, 0, i / 2].iter().map(|k| all[*k]).collect() };
            let fields = to.iter().enumerate().map(|(k, t)| field(&format!("v{i}_{k}"), RULES[(i + k) % 3], if k % 2 == 1 { Ty::Ref(*t) } else { Ty::Ref(*t).arr() }, k as u64)).chain([field("own", Rule::Req, Ty::U64, 7)]).collect();
            all.push(u.add(usize::from(i % 5 == 4), &format!("T{i}x"), i % 2 == 1, fields));
        }
        out.push(job(format!("{n} types"), u));
        // Long names.
        let mut u = Universe::new("main");
        let x = "long_name_".repeat(n / 10 + 1);
        let stem = "n".repeat(n.min(200));
        let (a, b) = (u.file(&stem), u.file(&format!("{stem}/{stem}/{stem}")));
        let one = u.add(a, &format!("{x}A"), false, vec![field(&format!("{x}b"), Rule::Req, Ty::U64, 0), field(&format!("{x}c"), Rule::Opt, Ty::Str, 1)]);
        let two = u.add(b, &format!("{x}B"), true, vec![field(&format!("{x}b"), Rule::Req, Ty::Ref(one), 0), field(&format!("{x}c"), Rule::Asym, Ty::Ref(one).arr(), 1)]);
        u.add(0, &x, false, vec![field(&format!("{x}b"), Rule::Opt, Ty::Ref(two).arr(), 0)]);
        out.push(job(format!("names of {n} letters"), u));
    }
    // Directories on top of each other, in two branches with the same names, and references up, down and across.
    for depth in if thorough { vec![6, 12, 20, 34, 50] } else { vec![12, 34] } {
        let mut u = Universe::new("main");
        let mut all = vec![];
        for branch in ["left", "right"] {
            for k in 0..depth {
                u.file(&format!("{branch}/{}leaf", (0..k).map(|i| format!("d{}/", ["x", "y", "z"][i % 3])).collect::<String>()));
            }
        }
        for i in 0..2 * depth {
            // From outside to inside and back, in both branches.
            let f = 1 + (i * 37) % (2 * depth);
            let len: usize = all.len();
            let to: Vec<usize> = if len == 0 { vec![] } else { vec![all[len - 1], all[0], all[len / 2], all[len / 3]] };
            let fields = to.iter().enumerate().map(|(k, t)| field(&format!("v{k}"), RULES[(i + k) % 3], Ty::Ref(*t), k as u64)).collect();
            let place = if (2 * depth) % 37 == 0 { 1 + i } else { f };
            all.push(u.add(place, "Leaf", false, fields));
        }
        let last = *all.last().unwrap();
        u.add(0, "Main", true, vec![field("v", Rule::Req, Ty::Ref(last), 0)]);
        out.push(job(format!("directories {depth} deep"), u));
    }
}

/// Letters as names: how the compilers see the characters which may be in identifiers.
struct Letters {
    /// Not a character of an identifier in this language.
    foreign: BTreeSet<char>,
    /// What it becomes by normalization, if that is something else.
    normalized: BTreeMap<char, String>,
}

fn letters(language: Language) -> Letters {
    let dir = driver::scratch().join("letters");
    std::fs::create_dir_all(&dir).unwrap();
    let all: Vec<char> = ('\u{80}'..=char::MAX).filter(|c| lang::is_ident_part(*c)).collect();
    let mut foreign = BTreeSet::new();
    // Node knows TypeScript's tables and normalization.
    let list = all.iter().map(|c| (*c as u32).to_string()).collect::<Vec<_>>().join(",");
    std::fs::write(
        dir.join("letters.cjs"),
        format!(
            "const ts = require('{}/typescript');\nfor (const c of [{list}]) {{ const s = String.fromCodePoint(c); const n = s.normalize('NFC'); console.log(c, ts.isIdentifierPart(c, ts.ScriptTarget.ES2020) && ts.isIdentifierStart(c, ts.ScriptTarget.ES2020) ? 2 : ts.isIdentifierPart(c, ts.ScriptTarget.ES2020) ? 1 : 0, n === s ? '' : Array.from(n, (x) => x.codePointAt(0)).join(' ')); }}\n",
            driver::NODE_MODULES
        ),
    )
    .unwrap();
    let ran = run(Command::new("node").current_dir(&dir).arg("letters.cjs"), None, Duration::from_secs(100));
    assert!(ran.ok(), "{}", ran.show());
    let mut normalized = BTreeMap::new();
    for line in ran.out_text().lines() {
        let w: Vec<&str> = line.split(' ').filter(|w| !w.is_empty()).collect();
        let c = char::from_u32(w[0].parse().unwrap()).unwrap();
        if language == Language::TypeScript && w[1] == "0" {
            foreign.insert(c);
        }
        if w.len() > 2 {
            normalized.insert(c, w[2..].iter().map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect());
        }
    }
    if language == Language::Rust {
        // The Rust compiler itself says which characters are none of identifiers, line by line.
        let text: String = all.iter().map(|c| format!("const x{c}: () = ();\n")).collect();
        std::fs::write(dir.join("letters.rs"), text).unwrap();
        let ran = run(
            driver::rustc().current_dir(&dir).args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "short", "-Awarnings", "letters.rs"]),
            None,
            Duration::from_secs(300),
        );
        for line in ran.err_text().lines() {
            if let Some(n) = line.strip_prefix("letters.rs:").and_then(|r| r.split(':').next()).and_then(|n| n.parse::<usize>().ok()) {
                if line.contains("unknown start of token") || line.contains("identifiers cannot contain") {
                    foreign.insert(all[n - 1]);
                }
            }
        }
    }
    Letters { foreign, normalized }
}

/// Whether the letter by itself may be the first one of an identifier, in the language.
fn letter_jobs(report: &Report, language: Language, out: &mut Vec<Job>) {
    let l = letters(language);
    // What the tool makes of a name has to be in the language.
    let fine = |n: &str| {
        [names::snake(n), names::pascal(n), names::camel(n)].iter().all(|n| n.chars().all(|c| !l.foreign.contains(&c)))
    };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut list: Vec<String> = vec![];
    let mut foreign = 0;
    for c in ('\u{80}'..=char::MAX).filter(|c| lang::is_ident_part(*c)) {
        let cased = c.to_lowercase().ne([c]) || c.to_uppercase().ne([c]);
        if !report.thorough && !cased && c as u32 >= 0x3000 && c as u32 % (if language == Language::Rust { 16 } else { 64 }) != 0 {
            continue;
        }
        for n in [format!("q{c}q"), format!("q_{c}q")] {
            // One of them is enough if there is no upper and lower case.
            if !cased && n.contains('_') {
                continue;
            }
            if !fine(&n) {
                foreign += 1;
                continue;
            }
            let normal: String = n.chars().map(|c| l.normalized.get(&c).cloned().unwrap_or_else(|| c.to_string())).collect();
            if seen.insert(names::pascal(&normal)) && seen.insert(format!(" {}", names::snake(&normal))) {
                list.push(n);
            }
        }
    }
    report.add("letters", list.len() as u64);
    report.note("letters_left_out", &format!("{foreign} names with characters which are letters or numbers but cannot be in identifiers of the language (known finding D11), and those which only differ from others by normalization"));
    for chunk in list.chunks(48) {
        let mut u = Universe::new("main");
        u.add(0, "S", false, chunk.iter().enumerate().map(|(i, w)| field(w, RULES[i % 3], Ty::U64, i as u64)).collect());
        u.add(0, "C", true, chunk.iter().enumerate().map(|(i, w)| field(w, RULES[i % 3], Ty::Unit, i as u64)).collect());
        for w in chunk.iter().step_by(if report.thorough { 4 } else { 16 }) {
            u.add(0, w, false, vec![]);
        }
        out.push(job(format!("names with the letters {}…", &chunk[0]), u));
    }
    for (n, what) in [("x²", "a superscript digit"), ("ⓐ", "a circled letter")] {
        let mut u = Universe::new("main");
        u.add(0, "S", false, vec![field(n, Rule::Req, Ty::U64, 0)]);
        out.push(Job { u, what: format!("{what} in the name {n:?}"), known: Some("D11") });
    }
}

fn known(language: Language, out: &mut Vec<Job>) {
    match language {
        Language::Rust => {
            // Two names which the Rust compiler takes for the same one after normalization.
            let mut u = Universe::new("main");
            u.add(0, "S", false, vec![field("\u{f900}", Rule::Req, Ty::U64, 0), field("\u{8c48}", Rule::Req, Ty::U64, 1)]);
            out.push(Job { u, what: "names which only differ by normalization".into(), known: Some("D27") });
        }
        Language::TypeScript => {
            let mut u = Universe::new("main");
            for f in ["foo1", "foo_1"] {
                let f = u.file(f);
                u.add(f, "Bar", false, vec![]);
            }
            out.push(Job { u, what: "files foo1.t and foo_1.t with a type of the same name".into(), known: Some("D10") });
            let mut u = Universe::new("main");
            let never = u.add(0, "Never", true, vec![]);
            u.add(0, "S", false, vec![field("x", Rule::Req, Ty::Ref(never).arr(), 0)]);
            out.push(Job { u, what: "an array of a choice without fields".into(), known: Some("D29") });
            let mut u = Universe::new("foo");
            let below = u.file("foo/bar");
            u.add(0, "Bar", false, vec![field("a", Rule::Req, Ty::U64, 0)]);
            u.add(below, "Bar", true, vec![field("b", Rule::Req, Ty::Str, 0)]);
            out.push(Job { u, what: "a type Bar in foo.t and another one in foo/bar.t".into(), known: Some("D28") });
        }
    }
}

pub fn jobs(report: &Report, language: Language) -> Vec<Job> {
    let list = interesting(report);
    report.add("names", list.len() as u64);
    report.note("names_tried", &list.join(" "));
    let mut out = vec![];
    known(language, &mut out);
    as_fields(&list, &mut out);
    as_types(&list, &mut out);
    as_files(language, &list, &mut out);
    trees(language, report.thorough, &mut out);
    shapes(language, report.thorough, &mut out);
    large(report.thorough, &mut out);
    letter_jobs(report, language, &mut out);
    out
}

fn check(report: &Report, language: Language) -> i32 {
    let list = jobs(report, language);
    run_all(report, &list, language, ("2021", Layout::Module), if language == Language::Rust { 300 } else { 700 });
    for j in list.iter().step_by(list.len() / 10 + 1) {
        report.sample(format!("{}: {}", j.what, j.u.sources().iter().map(|(n, s)| format!("{n}: {s:?}")).collect::<Vec<_>>().join("; ")));
    }
    report.assume("identifiers which the compilers know are those of rustc 1.85 (edition 2021) and TypeScript 5.9");
    report.finish()
}

/// C24: the same schemas in other editions and arrangements of crates.
pub fn elsewhere(report: &Report) {
    let list = interesting(report);
    report.add("names", list.len() as u64);
    let (mut fields, mut types, mut files, mut many) = (vec![], vec![], vec![], vec![]);
    as_fields(&list, &mut fields);
    as_types(&list, &mut types);
    trees(Language::Rust, report.thorough, &mut files);
    as_files(Language::Rust, &list, &mut files);
    large(false, &mut many);
    // (Checks of types which contain each other through 130 files exceed the compiler's own limit of recursion in other crates.)
    many.retain(|j| j.what.starts_with("directories"));
    if report.thorough {
        shapes(Language::Rust, false, &mut many);
    }
    // (The keywords of an edition are among those of the next.)
    for (edition, layout, quick) in [("2015", Layout::Module, [false, true, false]), ("2018", Layout::Included, [false, true, false]), ("2024", Layout::Crate, [true, true, true])] {
        for (some, quick) in [&fields, &types, &files].into_iter().zip(quick) {
            if quick || report.thorough {
                run_all(report, some, Language::Rust, (edition, layout), 300);
            }
        }
        if layout == Layout::Crate || report.thorough {
            run_all(report, &many, Language::Rust, (edition, layout), 300);
        }
    }
}

pub fn c08(report: &Report) -> i32 {
    check(report, Language::Rust)
}

pub fn c09(report: &Report) -> i32 {
    check(report, Language::TypeScript)
}
