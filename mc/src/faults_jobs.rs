//! The check of failing runs: C16.
use crate::cases;
use crate::driver::{self, run, typical_cmd, Ran};
use crate::lang_jobs::sequences;
use crate::report::{file, Report};
use mc::util::{clip, par_map};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::ffi::OsString;
use std::os::fd::OwnedFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::Duration;

/// What a tree holds: files and their contents; directories as `None`; symbolic links as `-> target`.
type Tree = BTreeMap<String, Option<Vec<u8>>>;

fn snapshot(top: &Path) -> Tree {
    fn walk(top: &Path, at: &Path, out: &mut Tree) {
        let Ok(list) = std::fs::read_dir(at) else { return };
        for e in list.flatten() {
            let p = e.path();
            let name = p.strip_prefix(top).unwrap().to_string_lossy().into_owned();
            let meta = match std::fs::symlink_metadata(&p) { Ok(m) => m, Err(_) => continue };
            if meta.is_symlink() {
                out.insert(name, Some(format!("-> {}", std::fs::read_link(&p).unwrap().display()).into_bytes()));
            } else if meta.is_dir() {
                out.insert(name, None);
                walk(top, &p, out);
            } else {
                out.insert(name, Some(std::fs::read(&p).unwrap_or_else(|_| b"(unreadable)".to_vec())));
            }
        }
    }
    let mut out = Tree::new();
    walk(top, top, &mut out);
    out
}

fn plant(top: &Path, tree: &Tree) {
    for (name, contents) in tree {
        let p = top.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        match contents {
            None => std::fs::create_dir_all(&p).unwrap(),
            Some(c) => match c.strip_prefix(b"-> ") {
                Some(target) => std::os::unix::fs::symlink(Path::new(std::ffi::OsStr::from_bytes(target)), &p).unwrap(),
                None => std::fs::write(&p, c).unwrap(),
            },
        }
    }
}

/// A command in a tree.
#[derive(Clone)]
struct Scenario {
    what: String,
    tree: Tree,
    args: Vec<OsString>,
    /// The requested output files.
    outputs: Vec<String>,
    /// Whether it is a command which formats: schemas can be rewritten.
    formats: bool,
    /// Whether the schema is fine, though the outputs cannot be written.
    unwritable: bool,
}

impl Scenario {
    fn keep(&self) -> Vec<(String, Vec<u8>)> {
        let mut out: Vec<(String, Vec<u8>)> = self.tree.iter().filter_map(|(n, c)| c.as_ref().map(|c| file(n, c))).collect();
        out.push(file("ARGS", format!("{:?}", self.args)));
        out
    }
    /// Whether the explanation of the tool is asked for, which the library for command lines prints.
    fn explains(&self) -> bool {
        self.args.iter().any(|a| ["help", "--help", "--version", "-v"].iter().any(|x| a == x))
    }
    fn show(&self) -> String {
        format!("{} (`typical {}`)", self.what, self.args.iter().map(|a| a.to_string_lossy().into_owned()).collect::<Vec<_>>().join(" "))
    }
}

/// What happens without faults.
struct Reference {
    ok: bool,
    tree: Tree,
    stdout: Vec<u8>,
    calls: Vec<Call>,
}

#[derive(Clone, Debug)]
struct Call {
    n: usize,
    what: String,
    size: i64,
    fault: i32,
    object: String,
}

fn read_log(path: &Path) -> Vec<Call> {
    let text = String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).into_owned();
    text.lines()
        .filter_map(|l| {
            let mut w = l.splitn(5, ' ');
            Some(Call {
                n: w.next()?.parse().ok()?,
                what: w.next()?.to_owned(),
                size: w.next()?.parse().ok()?,
                fault: w.next()?.parse().ok()?,
                object: w.next()?.to_owned(),
            })
        })
        .collect()
}

fn build_shim() -> PathBuf {
    let so = driver::scratch().join("faults.so");
    let source = driver::verif().join("mc/c/faults.c");
    let ran = run(Command::new("gcc").args(["-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o"]).arg(&so).arg(&source).arg("-ldl"), None, Duration::from_secs(120));
    if !ran.ok() {
        eprintln!("cannot build the injector of faults: {}", ran.show());
        std::process::exit(3);
    }
    so
}

fn command(dir: &Path, s: &Scenario) -> Command {
    let mut c = typical_cmd(dir);
    c.args(&s.args);
    c
}

/// Whether a line reports an error, rather than progress.
fn says_something_is_wrong(stderr: &str) -> bool {
    stderr.lines().any(|l| {
        let l = l.trim_end();
        !(l.is_empty() || l.ends_with('…') || l.ends_with("loaded.") || l.starts_with("  `") || l == "Done.")
    })
}

/// The directories on the way to a path.
fn parents(path: &str) -> Vec<String> {
    path.match_indices('/').map(|(i, _)| path[..i].to_owned()).collect()
}

/// What is wrong with the result of a run, if something is. `disturbed` are the kinds of calls which had
/// faults, `killed` whether the process was killed on purpose.
fn judge(s: &Scenario, reference: &Reference, ran: &Ran, after: &Tree, stderr_disturbed: bool, killed: bool, disturbed: bool) -> Option<String> {
    if !killed {
        if let Some(c) = ran.crash() {
            return Some(c);
        }
    }
    let ok = ran.ok();
    if ok && !reference.ok {
        return Some("it succeeds, although it should fail".into());
    }
    if !ok && reference.ok && !disturbed {
        return Some(format!("it fails: {}", ran.show()));
    }
    if ok {
        if *after != reference.tree {
            let name = after.iter().find(|(k, v)| reference.tree.get(*k) != Some(*v)).map(|x| x.0).or_else(|| reference.tree.keys().find(|k| !after.contains_key(*k)));
            return Some(format!("it succeeds, but {} is not what it should be", name.cloned().unwrap_or_default()));
        }
        if ran.out != reference.stdout {
            return Some(format!("it succeeds, but the standard output is {:?} instead of {:?}", clip(&ran.out_text(), 300), clip(&String::from_utf8_lossy(&reference.stdout), 300)));
        }
        return None;
    }
    if !killed && !stderr_disturbed && !says_something_is_wrong(&ran.err_text()) {
        return Some(format!("it fails without a message: {}", ran.show()));
    }
    // A failing run only touches what was requested.
    let mut partial = 0;
    for name in s.tree.keys().chain(after.keys()).collect::<BTreeSet<_>>() {
        let (was, is) = (s.tree.get(name), after.get(name));
        if was == is {
            continue;
        }
        let requested = (reference.ok || s.unwritable)
            && (s.outputs.contains(name) || (was.is_none() && is == Some(&None) && s.outputs.iter().any(|o| parents(o).contains(name))));
        if requested {
            continue;
        }
        if s.formats && reference.ok && is.is_some() {
            if is == reference.tree.get(name) {
                continue;
            }
            // The file which was being written.
            let beginning = match (is, reference.tree.get(name)) {
                (Some(Some(is)), Some(Some(whole))) => reference.tree.get(name) != was && whole.starts_with(is),
                _ => false,
            };
            partial += 1;
            if beginning && partial == 1 {
                continue;
            }
        }
        return Some(format!("it fails, and {name} was {}", if was.is_none() { "created" } else if is.is_none() { "removed" } else { "modified" }));
    }
    None
}

fn tree(files: &[(&str, &str)]) -> Tree {
    files.iter().map(|(n, c)| ((*n).to_owned(), if n.ends_with('/') { None } else { Some(c.as_bytes().to_vec()) })).map(|(n, c)| (n.trim_end_matches('/').to_owned(), c)).collect()
}

fn with_directories(tree: &Tree) -> Tree {
    let mut out = tree.clone();
    for name in tree.keys() {
        for p in parents(name) {
            out.insert(p, None);
        }
    }
    out
}

fn args(list: &[&str]) -> Vec<OsString> {
    list.iter().map(OsString::from).collect()
}

const A: &str = "import 'sub/b.t'\n\n# Comment.\nstruct Foo {\n    x: b.Bar = 0\n    optional y: [String] = 1\n}\n";
const A_UGLY: &str = "import 'sub/b.t'\n# Comment.\nstruct Foo {\nx: b.Bar = 0 optional y: [String] = 1 }\n";
const B: &str = "choice Bar {\n    one = 0\n    optional two: U64 = 1\n}\n";
const B_UGLY: &str = "import '../c.t'\nchoice Bar { one = 0\n\n\noptional two: U64 = 1\n}";
const C_UGLY: &str = "struct  Baz {x:U64=0}";

fn scenarios() -> Vec<Scenario> {
    let mut out: Vec<Scenario> = vec![];
    let good = tree(&[("a.t", A), ("sub/b.t", B), ("unrelated.txt", "x\n")]);
    let longer = "old contents\n".repeat(5000);
    let mut add = |what: &str, tree: &Tree, list: &[&str], outputs: &[&str]| {
        out.push(Scenario {
            what: what.to_owned(),
            tree: with_directories(tree),
            args: args(list),
            outputs: outputs.iter().map(|s| (*s).to_owned()).collect(),
            formats: list[0] == "format",
            unwritable: what.contains("an output"),
        });
    };
    // Accepted schemas.
    add("nothing requested", &good, &["generate", "a.t"], &[]);
    add("listing", &good, &["generate", "a.t", "--list-schemas"], &[]);
    add("Rust", &good, &["generate", "a.t", "--rust", "o.rs"], &["o.rs"]);
    add("TypeScript", &good, &["generate", "a.t", "--typescript", "o.ts"], &["o.ts"]);
    add("everything", &good, &["generate", "a.t", "--rust", "o.rs", "--typescript", "o.ts", "--list-schemas"], &["o.rs", "o.ts"]);
    add("missing directories", &good, &["generate", "a.t", "--rust", "d/e/f/o.rs", "--typescript", "d/g/o.ts"], &["d/e/f/o.rs", "d/g/o.ts"]);
    add("from below", &good, &["generate", "./sub/../a.t", "--rust", "./sub/o.rs"], &["sub/o.rs"]);
    let mut old = good.clone();
    old.insert("o.rs".into(), Some(longer.clone().into_bytes()));
    old.insert("d/o.ts".into(), Some(longer.clone().into_bytes()));
    add("longer outputs exist", &old, &["generate", "a.t", "--rust", "o.rs", "--typescript", "d/o.ts"], &["o.rs", "d/o.ts"]);
    old.insert("link.ts".into(), Some(b"-> d/o.ts".to_vec()));
    add("through a link", &old, &["generate", "a.t", "--typescript", "link.ts", "--rust", "o.rs"], &["d/o.ts", "o.rs"]);
    let empty = tree(&[("a.t", "")]);
    add("an empty schema", &empty, &["generate", "a.t", "--rust", "o.rs", "--typescript", "o.ts"], &["o.rs", "o.ts"]);
    // Rejected schemas.
    for (what, a, b) in [
        ("a syntax error", "struct {\n", B),
        ("a character which is no token", "struct Foo { x: U64 = 0 } $\n", B),
        ("a missing import", "import 'missing.t'\n", B),
        ("a syntax error in an import", A, "choice Bar { one = }\n"),
        ("an unknown type", "import 'sub/b.t'\nstruct Foo { x: b.Nope = 0 }\n", B),
        ("a repeated index in an import", A, "choice Bar { one = 0 two = 0 }\n"),
        ("a cycle", "import 'sub/b.t'\nstruct Foo { x: b.Bar = 0 }\n", "import '../a.t'\nchoice Bar { y: a.Foo = 0 }\n"),
        ("an import from outside", "import '../x.t'\n", B),
    ] {
        for old in [false, true] {
            let mut t = tree(&[("in/a.t", a), ("in/sub/b.t", b), ("x.t", "")]);
            if old {
                t.insert("o.rs".into(), Some(longer.clone().into_bytes()));
                t.insert("d/o.ts".into(), Some(b"old\n".to_vec()));
            }
            add(what, &t, &["generate", "in/a.t", "--rust", "o.rs", "--typescript", "d/o.ts", "--list-schemas"], &["o.rs", "d/o.ts"]);
        }
        let t = tree(&[("in/a.t", a), ("in/sub/b.t", b), ("x.t", "")]);
        add(what, &t, &["format", "in/a.t"], &[]);
        add(what, &t, &["format", "--check", "in/a.t"], &[]);
    }
    // Formatting.
    for (what, a, b) in [("formatted", A, B), ("one unformatted", A_UGLY, B), ("all unformatted", A_UGLY, B_UGLY), ("import unformatted", A, B_UGLY)] {
        let t = tree(&[("in/a.t", a), ("in/sub/b.t", b), ("in/c.t", C_UGLY)]);
        add(what, &t, &["format", "in/a.t"], &[]);
        add(what, &t, &["format", "--check", "in/a.t"], &[]);
    }
    // Other subcommands.
    for shell in ["bash", "Fish", "zsh", "PowerShell", "elvish", "tcsh"] {
        add("completion", &Tree::new(), &["shell-completion", shell], &[]);
    }
    for list in [&["--help"][..], &["--version"], &["-v"], &["help"], &["generate", "--help"], &["help", "format"], &["bogus"], &["generate"], &["format", "a.t", "--bogus"]] {
        add("help or a wrong argument", &good, list, &[]);
    }
    // Unusual trees.
    let strange = |extra: &[(&str, &str)]| {
        let mut t = good.clone();
        t.extend(tree(extra));
        t
    };
    add("an output is a directory", &strange(&[("o.rs/", "")]), &["generate", "a.t", "--rust", "o.rs", "--typescript", "o.ts"], &["o.rs", "o.ts"]);
    add("an output is a directory", &strange(&[("o.ts/", "")]), &["generate", "a.t", "--rust", "o.rs", "--typescript", "o.ts"], &["o.rs", "o.ts"]);
    add("a directory of an output is a file", &strange(&[("d", "file\n")]), &["generate", "a.t", "--rust", "d/o.rs"], &["d/o.rs"]);
    add("a directory of an output is below a file", &strange(&[("d", "file\n")]), &["generate", "a.t", "--typescript", "d/e/f/o.rs"], &["d/e/f/o.rs"]);
    add("an output is a link to itself", &strange(&[("o.rs", "-> o.rs")]), &["generate", "a.t", "--rust", "o.rs"], &["o.rs"]);
    add("an output is below a link to nowhere", &strange(&[("d", "-> nowhere")]), &["generate", "a.t", "--rust", "d/o.rs"], &["d/o.rs"]);
    add("an output is a full device", &strange(&[("o.rs", "-> /dev/full")]), &["generate", "a.t", "--rust", "o.rs", "--typescript", "o.ts"], &["o.rs", "o.ts"]);
    add("an output ends with a slash", &good, &["generate", "a.t", "--rust", "d/"], &["d/", "d"]);
    add("an output is the directory", &good, &["generate", "a.t", "--rust", "."], &[]);
    add("an output is empty", &good, &["generate", "a.t", "--typescript", ""], &[]);
    for root in ["missing.t", "sub", ".", "..", "/", "", "a.t/", "a.t/x.t", "sub/", "unrelated.txt/..", "nowhere/a.t"] {
        add("a strange root", &good, &["generate", root, "--rust", "o.rs", "--list-schemas"], &["o.rs"]);
        add("a strange root", &good, &["format", root], &[]);
    }
    for import in ["sub", ".", "..", "/", "", "sub/", "sub/b.t/", "sub/b.t/.."] {
        let t = tree(&[("a.t", &format!("import '{import}' as x\n")), ("sub/b.t", B)]);
        add("a strange import", &t, &["generate", "a.t", "--rust", "o.rs"], &["o.rs"]);
        add("a strange import", &t, &["format", "a.t"], &[]);
    }
    let mut latin = tree(&[("b.t", B)]);
    latin.insert("a.t".into(), Some(b"import 'b.t'\n# \xff\n".to_vec()));
    add("a schema which is not UTF-8", &latin, &["generate", "a.t", "--rust", "o.rs"], &["o.rs"]);
    add("a schema which is not UTF-8", &latin, &["format", "a.t"], &[]);
    out
}

const EIO: i32 = 5;
const EINTR: i32 = 4;
const ENOSPC: i32 = 28;
const EACCES: i32 = 13;

/// The faults which a call can have.
fn kinds(c: &Call, thorough: bool) -> Vec<i32> {
    let mut v = match c.what.as_str() {
        "open_r" => vec![EACCES, EIO, EINTR, 2, 24],
        "open_w" => vec![EACCES, ENOSPC, EINTR, 30, 24],
        "read" => vec![EIO, EINTR, 1001, 1002],
        "write" if c.object == "stdout" || c.object == "stderr" => vec![EIO, EINTR, ENOSPC, 32, 1001, 1003],
        "write" => vec![EIO, EINTR, ENOSPC, 1001, 1002, 1003, 122],
        "realpath" => vec![EACCES, EIO, 2, 40],
        "mkdir" => vec![EACCES, ENOSPC, 30, 17],
        "lseek" => vec![EIO, 29],
        _ => vec![EACCES, EIO],
    };
    if thorough {
        v.extend(match c.what.as_str() {
            "open_r" | "open_w" => vec![12, 20, 21, 23, 27, 36, 40],
            "write" => vec![11, 27],
            "read" => vec![11, 21],
            "realpath" => vec![12, 20, 36],
            "mkdir" => vec![2, 20, 31, 36, 40],
            _ => vec![2, 12, 38, 75],
        });
    }
    v.push(2000);
    v
}

struct Outcome {
    ran: Ran,
    after: Tree,
    log: Vec<Call>,
}

fn execute(s: &Scenario, shim: Option<(&Path, &str)>) -> Outcome {
    let dir = cases::fresh_dir("f");
    let top = dir.join("top");
    std::fs::create_dir_all(&top).unwrap();
    plant(&top, &s.tree);
    let mut c = command(&top, s);
    let log = dir.join("log");
    if let Some((so, plan)) = shim {
        c.env("LD_PRELOAD", so).env("MC_FAULT_PLAN", plan).env("MC_FAULT_LOG", &log);
    }
    let ran = run(&mut c, None, Duration::from_secs(20));
    let after = snapshot(&top);
    let log = read_log(&log);
    cases::remove(&dir);
    Outcome { ran, after, log }
}

fn one_fault(report: &Report, so: &Path, s: &Scenario, reference: &Reference, plan: &str, classes: &Mutex<HashSet<String>>) {
    let o = execute(s, Some((so, plan)));
    report.add("runs", 1);
    let hit: Vec<&Call> = o.log.iter().filter(|c| c.fault != 0).collect();
    if hit.is_empty() {
        report.add("plans_without_effect", 1);
    }
    let killed = hit.iter().any(|c| c.fault == 2000);
    let stderr_hit = hit.iter().any(|c| c.object == "stderr");
    report.add(if killed { "kills" } else { "faults" }, 1);
    report.add(if o.ran.ok() { "succeeded" } else { "failed" }, 1);
    report.add("calls", o.log.len() as u64);
    for c in &hit {
        classes.lock().unwrap().insert(format!("{} {}", c.what, c.fault));
    }
    if let Some(wrong) = judge(s, reference, &o.ran, &o.after, stderr_hit, killed, !hit.is_empty()) {
        // The known finding: the standard output of an explanation fails.
        if s.explains() && o.ran.ok() && o.after == reference.tree && hit.iter().all(|c| c.object == "stdout" && c.fault != 2000) {
            report.finding("D30", 1, &format!("{} when a write to the standard output fails", s.show()), &s.keep());
            return;
        }
        let faults: Vec<String> = hit.iter().map(|c| format!("call {} ({} of {}, {} bytes): {}", c.n, c.what, c.object, c.size, kind_name(c.fault))).collect();
        let mut files = s.keep();
        files.push(file("PLAN", plan));
        report.violation(&format!("{} with faults [{}]: {wrong}", s.show(), faults.join("; ")), &files);
    }
}

fn kind_name(k: i32) -> String {
    match k {
        1001 => "only one byte is transferred".into(),
        1002 => "half of the bytes are transferred".into(),
        1003 => "nothing is transferred".into(),
        2000 => "the process is killed".into(),
        k => format!("{}", std::io::Error::from_raw_os_error(k)),
    }
}

pub fn c16(report: &Report) -> i32 {
    let so = build_shim();
    let list = scenarios();
    let classes = Mutex::new(HashSet::new());
    // Without faults.
    let references: Vec<Option<Reference>> = par_map(driver::THREADS, &list, |_, s| {
        let o = execute(s, None);
        let traced = execute(s, Some((&so, "")));
        report.add("runs", 2);
        report.add("scenarios", 1);
        let reference = Reference { ok: o.ran.ok(), tree: o.after.clone(), stdout: o.ran.out.clone(), calls: traced.log };
        if traced.ran.code != o.ran.code || traced.after != o.after || traced.ran.out != o.ran.out {
            report.violation(&format!("{}: two runs differ: {} / {}", s.show(), o.ran.show(), traced.ran.show()), &s.keep());
            return None;
        }
        if let Some(wrong) = judge(s, &reference, &o.ran, &o.after, false, false, false).or_else(|| complete(s, &reference)) {
            report.violation(&format!("{}: {wrong}", s.show()), &s.keep());
            return None;
        }
        Some(reference)
    });
    // The results don't depend on what was there before, so equal requests have equal results.
    let mut by_request: BTreeMap<Vec<u8>, (usize, Vec<u8>)> = BTreeMap::new();
    for (i, (s, r)) in list.iter().zip(&references).enumerate() {
        let Some(r) = r else { continue };
        if !r.ok || s.formats {
            continue;
        }
        for o in &s.outputs {
            let Some(Some(c)) = r.tree.get(o) else { continue };
            let mut key = format!("{} ", o.ends_with("ts")).into_bytes();
            key.extend(s.tree.get("a.t").cloned().flatten().unwrap_or_default());
            let old = by_request.entry(key).or_insert((i, c.clone()));
            if old.1 != *c {
                report.violation(&format!("{} and {} have different contents of {o}", s.show(), list[old.0].show()), &s.keep());
            }
        }
    }
    // One fault at every call.
    let mut jobs: Vec<(usize, String)> = vec![];
    for (i, r) in references.iter().enumerate() {
        let Some(r) = r else { continue };
        for c in &r.calls {
            for k in kinds(c, report.thorough) {
                jobs.push((i, format!("{}:{k}", c.n)));
                // From then on, on the same object.
                if c.what == "write" && [ENOSPC, 1001].contains(&k) || k == EIO {
                    jobs.push((i, format!("{}+:{k}", c.n)));
                }
                // A transfer which stops in the middle, and then fails.
                if c.what == "write" && k == 1002 {
                    for then in [ENOSPC, EIO, EINTR, 1003] {
                        jobs.push((i, format!("{}:{k},{}:{then}", c.n, c.n + 1)));
                    }
                }
            }
        }
        if report.thorough {
            // Two faults.
            for (x, c) in r.calls.iter().enumerate() {
                for d in &r.calls[x + 1..] {
                    for k in [EINTR, EIO, 1001] {
                        for l in [EIO, ENOSPC] {
                            if k == EIO || c.what == "read" || c.what == "write" || c.what.starts_with("open") {
                                // After a first fault, the numbers shift at most by one or two.
                                for shift in 0..=usize::from(k != EIO) {
                                    jobs.push((i, format!("{}:{k},{}:{l}", c.n, d.n + shift)));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    par_map(driver::THREADS, &jobs, |_, (i, plan)| one_fault(report, &so, &list[*i], references[*i].as_ref().unwrap(), plan, &classes));
    streams(report, &list, &references);
    command_lines(report);
    not_utf8(report);
    let classes = classes.into_inner().unwrap();
    report.add("kinds_of_faults", classes.len() as u64);
    let mut v: Vec<_> = classes.into_iter().collect();
    v.sort();
    report.note("faults", &v.join(", "));
    report.assume("faults are those of the calls of the C library; memory never runs out; failures of close (which Rust's standard library ignores) are not injected; the requested outputs are different files and no schemas");
    report.finish()
}

/// A run which succeeds wrote what was requested, and nothing else.
fn complete(s: &Scenario, r: &Reference) -> Option<String> {
    if !r.ok {
        return None;
    }
    for o in &s.outputs {
        match r.tree.get(o) {
            Some(Some(c)) if c.ends_with(b"\n") && !c.is_empty() => {}
            _ => return Some(format!("it succeeds, but {o} was not written completely")),
        }
    }
    for (name, was) in &s.tree {
        if r.tree.get(name) != Some(was) && !s.outputs.contains(name) && !(s.formats && !s.args.contains(&"--check".into()) && name.ends_with(".t")) {
            return Some(format!("it changed {name}"));
        }
    }
    for name in r.tree.keys() {
        if !s.tree.contains_key(name) && !s.outputs.contains(name) && !s.outputs.iter().any(|o| parents(o).contains(name)) {
            return Some(format!("it created {name}"));
        }
    }
    None
}

/// Standard streams which are closed, full or broken pipes.
fn streams(report: &Report, list: &[Scenario], references: &[Option<Reference>]) {
    let modes = ["as usual", "full", "broken", "closed"];
    let jobs: Vec<(usize, usize, usize)> =
        (0..list.len()).filter(|i| references[*i].is_some()).flat_map(|i| (1..16).map(move |m| (i, m / 4, m % 4))).collect();
    par_map(driver::THREADS, &jobs, |_, (i, out, err)| {
        let (s, reference) = (&list[*i], references[*i].as_ref().unwrap());
        let dir = cases::fresh_dir("f");
        let top = dir.join("top");
        std::fs::create_dir_all(&top).unwrap();
        plant(&top, &s.tree);
        let mut c = command(&top, s);
        if *out == 3 || *err == 3 {
            // A shell closes them.
            let typical = c;
            c = Command::new("/bin/bash");
            c.current_dir(&top).env_clear().env("PATH", "/usr/bin:/bin").env("NO_COLOR", "true").env("LC_ALL", "C.UTF-8");
            c.arg("-c").arg(format!("exec \"$0\" \"$@\"{}{}", if *out == 3 { " >&-" } else { "" }, if *err == 3 { " 2>&-" } else { "" }));
            c.arg(typical.get_program()).args(&s.args);
        }
        let stream = |mode: usize| match mode {
            1 => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()),
            2 => Stdio::from(OwnedFd::from(UnixStream::pair().unwrap().0)),
            _ => Stdio::piped(),
        };
        c.stdout(stream(*out)).stderr(stream(*err));
        let mut ran = driver::run_streams(&mut c, None, Duration::from_secs(30));
        report.add("runs", 1);
        report.add("redirections", 1);
        let after = snapshot(&top);
        // What is written to a closed stream is dropped by the standard library. Writing to a stream which
        // is full or broken fails, so success means that there was nothing to write.
        let lost = [1, 2].contains(out) && !reference.stdout.is_empty();
        if lost && ran.ok() {
            ran.out = b"(lost)".to_vec();
        } else if *out != 0 {
            ran.out.clone_from(&reference.stdout);
        }
        if let Some(wrong) = judge(s, reference, &ran, &after, *err != 0, false, lost || *err != 0) {
            if s.explains() && ran.ok() && after == reference.tree && lost {
                report.finding("D30", 1, &format!("{} with a standard output which is {}", s.show(), modes[*out]), &s.keep());
                cases::remove(&dir);
                return;
            }
            report.violation(&format!("{} with a standard output which is {} and a standard error which is {}: {wrong}", s.show(), modes[*out], modes[*err]), &s.keep());
        }
        cases::remove(&dir);
    });
}

/// What a command line asks for, in the part of the syntax which is modelled.
enum Asked {
    Generate { root: String, rust: Option<String>, typescript: Option<String>, list: bool },
    Format { root: String, check: bool },
    Completion(String),
    /// An explanation.
    Help,
    Wrong,
    /// Not modelled.
    Unclear,
}

fn asked(words: &[&str]) -> Asked {
    let Some((sub, rest)) = words.split_first() else { return Asked::Wrong };
    if words.iter().skip(1).any(|w| *w == "help") || words.contains(&"") {
        return Asked::Unclear;
    }
    let helps = |w: &&str| ["--help", "-h", "--version", "-v"].contains(w);
    match *sub {
        "help" | "--help" | "-h" | "--version" | "-v" => return if rest.is_empty() { Asked::Help } else { Asked::Unclear },
        "generate" | "format" | "shell-completion" => {}
        _ => return if words.iter().any(helps) { Asked::Unclear } else { Asked::Wrong },
    }
    if rest.iter().any(helps) {
        return Asked::Unclear;
    }
    let mut positional = vec![];
    let (mut rust, mut typescript, mut list, mut check) = (None, None, false, false);
    let mut i = 0;
    let mut only = false;
    while i < rest.len() {
        let w = rest[i];
        i += 1;
        if only || !w.starts_with('-') {
            positional.push(w.to_owned());
            continue;
        }
        if w == "--" {
            only = true;
            continue;
        }
        let (name, value) = match w.split_once('=') {
            Some((n, v)) => (n, Some(v.to_owned())),
            None => (w, None),
        };
        match (*sub, name) {
            ("generate", "--rust" | "--typescript") => {
                let value = match value {
                    Some(v) => v,
                    None => {
                        match rest.get(i) {
                            Some(v) if !v.starts_with('-') => {
                                i += 1;
                                (*v).to_owned()
                            }
                            _ => return Asked::Wrong,
                        }
                    }
                };
                let slot = if name == "--rust" { &mut rust } else { &mut typescript };
                if slot.replace(value).is_some() {
                    return Asked::Wrong;
                }
            }
            ("generate", "--list-schemas") if value.is_none() => {
                if list {
                    return Asked::Unclear;
                }
                list = true;
            }
            ("format", "--check") if value.is_none() => {
                if check {
                    return Asked::Unclear;
                }
                check = true;
            }
            _ => return if value.is_some() { Asked::Unclear } else { Asked::Wrong },
        }
    }
    if positional.len() != 1 {
        return Asked::Wrong;
    }
    let root = positional.remove(0);
    if rust.is_some() && rust == typescript || rust.as_deref() == Some("good.t") || typescript.as_deref() == Some("good.t") || rust.as_deref() == Some("bad.t") || typescript.as_deref() == Some("bad.t") {
        return Asked::Unclear;
    }
    if rust.as_deref() == Some("") && typescript.is_some() {
        return Asked::Unclear;
    }
    match *sub {
        "generate" => Asked::Generate { root, rust, typescript, list },
        "format" => Asked::Format { root, check },
        _ => Asked::Completion(root),
    }
}

/// All short command lines.
fn command_lines(report: &Report) {
    let words = ["generate", "format", "shell-completion", "good.t", "bad.t", "--rust", "o.rs", "--typescript=d/o.ts", "--list-schemas", "--check", "--bogus", "-x", "--", "--help", "-v", "help", "", "bash", "--rust="];
    let good = "struct  Foo {x:U64=0}";
    let formatted = "struct Foo {\n    x: U64 = 0\n}\n";
    let start = tree(&[("good.t", good), ("bad.t", "struct Foo {x:U64=0")]);
    let reference = |list: &[&str]| {
        let o = execute(&Scenario { what: String::new(), tree: start.clone(), args: args(list), outputs: vec![], formats: false, unwritable: false }, None);
        (o.after, o.ran.out)
    };
    let (both, _) = reference(&["generate", "good.t", "--rust", "o.rs", "--typescript", "d/o.ts"]);
    let (_, completion) = reference(&["shell-completion", "bash"]);
    let mut jobs: Vec<Vec<&str>> = vec![];
    for n in 0..=3 {
        jobs.extend(sequences(words.len(), n).into_iter().map(|s| s.iter().map(|i| words[*i]).collect()));
    }
    for sub in ["generate", "format", "shell-completion"] {
        let longest = if report.thorough { 5 } else { 4 };
        for n in 3..=longest {
            if n == 4 && sub != "generate" && !report.thorough {
                continue;
            }
            if n == 5 && sub != "generate" {
                continue;
            }
            jobs.extend(sequences(10, n).into_iter().map(|s| {
                let mut v = vec![sub];
                v.extend(s.iter().map(|i| words[3 + *i]));
                v
            }));
        }
    }
    jobs.sort();
    jobs.dedup();
    par_map(driver::THREADS, &jobs, |_, words| {
        let s = Scenario { what: "a command line".into(), tree: start.clone(), args: args(words), outputs: vec![], formats: false, unwritable: false };
        let o = execute(&s, None);
        report.add("runs", 1);
        report.add("command_lines", 1);
        let bad = |what: &str| report.violation(&format!("{}: {what}: {}", s.show(), o.ran.show()), &s.keep());
        if let Some(c) = o.ran.crash() {
            bad(&c);
            return;
        }
        if !o.ran.ok() && o.ran.err.iter().all(u8::is_ascii_whitespace) {
            bad("it fails without a message");
            return;
        }
        let mut want = start.clone();
        let mut out: Option<Vec<u8>> = None;
        let ok = match asked(words) {
            Asked::Unclear => {
                report.add("command_lines_unclear", 1);
                return;
            }
            Asked::Help => true,
            Asked::Wrong => false,
            Asked::Completion(shell) => {
                if shell == "bash" {
                    out = Some(completion.clone());
                }
                shell == "bash"
            }
            Asked::Format { root, check } => {
                if root == "good.t" && !check {
                    want.insert("good.t".into(), Some(formatted.as_bytes().to_vec()));
                }
                root == "good.t" && !check
            }
            Asked::Generate { rust: Some(p), typescript: None, .. } if p.is_empty() => false,
            Asked::Generate { root, rust, typescript, list } => {
                if root == "good.t" {
                    for (path, from) in [(rust, "o.rs"), (typescript, "d/o.ts")] {
                        let Some(path) = path else { continue };
                        let contents = both.get(from).cloned().flatten();
                        for p in parents(&path) {
                            want.insert(p, None);
                        }
                        want.insert(path, contents);
                    }
                    out = Some(if list { b"good.t\n".to_vec() } else { vec![] });
                }
                root == "good.t"
            }
        };
        report.add("command_lines_decided", 1);
        if o.ran.ok() != ok {
            bad(if ok { "it fails" } else { "it succeeds" });
        } else if o.after != want {
            bad("it did not leave the files which it should");
        } else if ok && out.is_some_and(|out| out != o.ran.out) {
            bad("the standard output is wrong");
        }
    });
}

/// Arguments which are no text.
fn not_utf8(report: &Report) {
    let start = tree(&[("good.t", "struct  Foo {x:U64=0}")]);
    let strange: Vec<OsString> = [&b"\xff"[..], b"\xff.t", b"a\x80/b.t", b"--rust=\xfe.rs", b"-\xff", b"--\xff", b"--typescript=d\xc3/o.ts"].iter().map(|b| OsString::from_vec(b.to_vec())).collect();
    let mut jobs: Vec<Vec<OsString>> = vec![];
    for x in &strange {
        jobs.push(vec![x.clone()]);
        for sub in ["generate", "format", "shell-completion", "help"] {
            jobs.push(vec![sub.into(), x.clone()]);
            for other in ["good.t", "--rust", "--typescript", "--list-schemas", "--check", "--help"] {
                jobs.push(vec![sub.into(), other.into(), x.clone()]);
                jobs.push(vec![sub.into(), x.clone(), other.into()]);
                jobs.push(vec![sub.into(), "good.t".into(), other.into(), x.clone()]);
                jobs.push(vec![sub.into(), other.into(), x.clone(), "good.t".into()]);
            }
        }
    }
    par_map(driver::THREADS, &jobs, |_, words| {
        let s = Scenario { what: "arguments which are not UTF-8".into(), tree: start.clone(), args: words.clone(), outputs: vec![], formats: false, unwritable: false };
        let o = execute(&s, None);
        report.add("runs", 1);
        report.add("command_lines", 1);
        if let Some(c) = o.ran.crash() {
            report.violation(&format!("typical {:?}: {c}", s.args), &s.keep());
        } else if !o.ran.ok() && o.ran.err.iter().all(u8::is_ascii_whitespace) {
            report.violation(&format!("typical {:?} fails without a message", s.args), &s.keep());
        } else if !o.ran.ok() && o.after != start {
            report.violation(&format!("typical {:?} fails, but changed files", s.args), &s.keep());
        }
    });
}
