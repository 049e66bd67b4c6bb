//! The check of determinism: C17.
use crate::cases::{fresh_dir, remove};
use crate::driver::{self, run, typical_cmd, Ran};
use crate::families;
use crate::fmt_jobs::{self, render, Style, COMMENTS, SPACES};
use crate::lang_jobs::sequences;
use crate::report::{file, Report};
use mc::lang::{self, LFile, LImport, LTy};
use mc::names;
use mc::util::{clip, par_map};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

type Files = Vec<(String, String)>;

fn build_shim() -> PathBuf {
    let so = driver::scratch().join("world.so");
    let ran = run(Command::new("gcc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&so).arg(driver::verif().join("mc/c/world.c")), None, Duration::from_secs(120));
    if !ran.ok() {
        eprintln!("cannot build the interposed world: {}", ran.show());
        std::process::exit(3);
    }
    so
}

extern "C" {
    fn umask(mask: u32) -> u32;
}

// ---------------------------------------------------------------------------------------------------
// Circumstances: dimensions, each with a number of options, of which 0 is the usual one.

/// A way to set environment variables: `None` removes one.
type Env = Vec<(String, Option<String>)>;

struct World {
    shim: PathBuf,
    envs: Vec<Env>,
}

const ENV: usize = 0;
const SEED: usize = 1;
const PLACE: usize = 2;
const SPELLING: usize = 3;
const OUTPUTS: usize = 4;
const PREVIOUS: usize = 5;
const EXTRA: usize = 6;
const META: usize = 7;
const MISC: usize = 8;
const DIMS: usize = 9;
const NAMES: [&str; DIMS] = ["environment", "random numbers, time and identity", "place", "spelling", "outputs", "previous contents", "other files", "metadata", "process"];

const PLACES: &[&str] = &["base", "main", "src.t", "with space", "été", "a/b/c/d/e/f", ".hidden", "schema-1.2", "Types", "x", "struct", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
const SPELLINGS: usize = 13;
const OUTPUT_KINDS: usize = 15;
const PREVIOUS_KINDS: usize = 11;
const EXTRAS: usize = 7;
const METAS: usize = 8;
const MISCS: usize = 6;
const SEEDS: usize = 12;

impl World {
    fn options(&self, dim: usize) -> usize {
        [self.envs.len(), SEEDS, PLACES.len(), SPELLINGS, OUTPUT_KINDS, PREVIOUS_KINDS, EXTRAS, METAS, MISCS][dim]
    }
}

type Setup = [usize; DIMS];

/// What a run came to.
#[derive(Clone, PartialEq, Debug, Default)]
struct Outcome {
    ok: bool,
    /// The generated files, if requested.
    rust: Option<Vec<u8>>,
    typescript: Option<Vec<u8>>,
    /// The list of schemas, if requested and the spelling of the path is the usual one.
    listing: Option<Vec<u8>>,
    /// The schemas afterwards.
    schemas: Vec<Option<Vec<u8>>>,
    stderr: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Job {
    Generate,
    Format,
    Check,
}

struct Tree {
    what: String,
    files: Files,
    root: String,
}

fn set_times(path: &Path, at: SystemTime) {
    if let Ok(f) = std::fs::File::options().append(true).open(path) {
        let _ = f.set_modified(at);
    }
}

/// Set the stage, run the tool, and see what it came to.
fn perform(world: &World, tree: &Tree, job: Job, setup: &Setup, usual: Option<&Outcome>) -> Outcome {
    let dir = fresh_dir("same");
    let place = PLACES[setup[PLACE]];
    let base = dir.join(place);
    std::fs::create_dir_all(&base).unwrap();
    let parent = base.parent().unwrap().to_owned();
    let last = base.file_name().unwrap().to_string_lossy().into_owned();

    let mut order: Vec<&(String, String)> = tree.files.iter().collect();
    if setup[META] == 6 {
        order.reverse();
    }
    for (name, contents) in order {
        let p = base.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, contents).unwrap();
        match setup[META] {
            1 => set_times(&p, UNIX_EPOCH),
            2 => set_times(&p, UNIX_EPOCH + Duration::from_secs(4_102_444_800)),
            4 => std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o600)).unwrap(),
            5 => std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o777)).unwrap(),
            7 => {
                let to = dir.join("twins");
                std::fs::create_dir_all(&to).unwrap();
                std::fs::hard_link(&p, to.join(name.replace('/', "_"))).unwrap();
            }
            _ => {}
        }
    }
    let put = |at: &Path, text: &[u8]| {
        std::fs::create_dir_all(at.parent().unwrap()).unwrap();
        if !at.exists() {
            std::fs::write(at, text).unwrap();
        }
    };
    match setup[EXTRA] {
        1 => put(&base.join("zz_broken.t"), b"struct {"),
        2 => {
            for (name, contents) in &tree.files {
                put(&base.join(name).with_file_name("aa.t"), contents.as_bytes());
                put(&base.join("more").join(name), contents.as_bytes());
            }
        }
        3 => {
            for name in [".typical.toml", "typical.toml", "typical.json", ".git/HEAD", ".git/config", "Cargo.toml", "package.json", ".editorconfig", "rustfmt.toml", ".rustfmt.toml", ".prettierrc", "tsconfig.json"] {
                put(&base.join(name), b"[format]\nmax_width = 20\nindent = \"tab\"\n");
                put(&dir.join(name), b"max_width = 20\n");
            }
            put(&base.join(".gitignore"), b"*.t\n*\n");
            put(&base.join(".ignore"), b"*.t\n*\n");
        }
        4 => {
            for (name, _) in &tree.files {
                let stem = base.join(name).with_extension("");
                if !stem.exists() {
                    put(&stem.join("inner.t"), b"struct Inner {}\n");
                }
            }
        }
        5 => {
            for i in 0..60 {
                put(&base.join(format!("f{i}.t")), b"struct Other {}\n");
            }
        }
        6 => {
            for (name, _) in &tree.files {
                for suffix in ["~", ".bak", ".swp", ".orig", ".lock", ".tmp"] {
                    put(&base.join(format!("{name}{suffix}")), b"old\n");
                }
            }
        }
        _ => {}
    }

    // Where to run it, and how to spell the path.
    let root = &tree.root;
    let abs = |p: &Path| p.to_string_lossy().into_owned();
    let other = dir.join("other");
    std::fs::create_dir_all(&other).unwrap();
    let (cwd, spelled) = match setup[SPELLING] {
        0 => (base.clone(), root.clone()),
        1 => (base.clone(), format!("./{root}")),
        2 => (parent.clone(), format!("{last}/{root}")),
        3 => (parent.clone(), format!("./{last}//./{root}")),
        4 => (base.clone(), abs(&base.join(root))),
        5 => (PathBuf::from("/"), abs(&base.join(root))),
        6 => {
            std::fs::create_dir_all(base.join("below_it/more")).unwrap();
            (base.join("below_it/more"), format!("../../{root}"))
        }
        7 => (other.clone(), format!("../{place}/{root}")),
        8 => {
            symlink(&base, other.join("link")).unwrap();
            (other.clone(), format!("link/{root}"))
        }
        9 => {
            symlink(&base, other.join("link")).unwrap();
            (other.join("link"), root.clone())
        }
        10 => (other.clone(), abs(&other.join("..").join(place).join(root))),
        11 => (base.clone(), format!("../{last}/{root}")),
        _ => {
            symlink(dir.join("other"), dir.join("far")).unwrap();
            symlink("../".to_owned() + place, other.join("near")).unwrap();
            (dir.clone(), format!("far/near/./{root}"))
        }
    };

    // The outputs.
    let out = dir.join("out");
    std::fs::create_dir_all(&out).unwrap();
    let (mut rust, mut typescript) = (Some(out.join("o.rs")), Some(out.join("o.ts")));
    let mut args: Vec<String> = vec![];
    let mut to_stdout = 0;
    let mut listing = false;
    if job == Job::Generate {
        let both = |r: &Path, t: &Path| vec!["generate".to_owned(), spelled.clone(), "--rust".into(), abs(r), "--typescript".into(), abs(t)];
        match setup[OUTPUTS] {
            0 => args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap()),
            1 => {
                typescript = None;
                args = both(rust.as_ref().unwrap(), Path::new(""))[..4].to_vec();
            }
            2 => {
                args = ["generate".to_owned(), spelled.clone(), "--typescript".into(), abs(typescript.as_ref().unwrap())].to_vec();
                rust = None;
            }
            3 => args = ["generate".to_owned(), "--typescript".into(), abs(typescript.as_ref().unwrap()), "--rust".into(), abs(rust.as_ref().unwrap()), spelled.clone()].to_vec(),
            4 => args = ["generate".to_owned(), format!("--rust={}", abs(rust.as_ref().unwrap())), format!("--typescript={}", abs(typescript.as_ref().unwrap())), "--".into(), spelled.clone()].to_vec(),
            5 => {
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
                args.push("--list-schemas".into());
                listing = true;
            }
            6 => {
                // Relative paths; the root directory is none of our business.
                if cwd != Path::new("/") {
                    (rust, typescript) = (Some(cwd.join("o_here.rs")), Some(cwd.join("o_here.ts")));
                    args = both(Path::new("o_here.rs"), Path::new("./o_here.ts"));
                } else {
                    args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
                }
            }
            7 => {
                (rust, typescript) = (Some(out.join("p/q/r/o.rs")), Some(out.join("p/s/o.ts")));
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
            }
            8 => {
                (rust, typescript) = (Some(base.join(root).with_extension("rs")), Some(base.join(root).with_extension("ts")));
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
            }
            9 => {
                (rust, typescript) = (Some(out.join("mod.rs")), Some(out.join("index.d.ts")));
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
            }
            10 => {
                (rust, typescript) = (Some(out.join("x.ts")), Some(out.join("y.rs")));
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
            }
            11 => {
                (rust, typescript) = (Some(out.join("no_extension")), Some(out.join("ünï cödé.tsx")));
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
            }
            12 => {
                let real = out.join("real");
                std::fs::create_dir_all(&real).unwrap();
                symlink(real.join("o.rs"), rust.as_ref().unwrap()).unwrap();
                symlink(real.join("o.ts"), typescript.as_ref().unwrap()).unwrap();
                args = both(rust.as_ref().unwrap(), typescript.as_ref().unwrap());
            }
            13 => {
                to_stdout = 1;
                args = both(Path::new("/dev/stdout"), typescript.as_ref().unwrap());
                rust = None;
            }
            _ => {
                to_stdout = 2;
                args = both(rust.as_ref().unwrap(), Path::new("/dev/stdout"));
                typescript = None;
            }
        }
        for (path, whole) in [(&rust, usual.and_then(|u| u.rust.clone())), (&typescript, usual.and_then(|u| u.typescript.clone()))] {
            let (Some(path), Some(whole)) = (path, whole) else { continue };
            let before: Option<Vec<u8>> = match setup[PREVIOUS] {
                0 => None,
                1 => Some(vec![]),
                2 => Some(b"garbage\n".repeat(100_000)),
                3 => Some(b"x".repeat(whole.len())),
                4 => Some(whole.clone()),
                5 => Some(whole[..whole.len() / 2].to_vec()),
                6 => Some([&whole[..], b"// The end.\n"].concat()),
                7 => {
                    let mut w = whole.clone();
                    let at = w.len() * 2 / 3;
                    w[at] = if w[at] == b'x' { b'y' } else { b'x' };
                    Some(w)
                }
                8 => Some(whole.iter().flat_map(|b| if *b == b'\n' { vec![b'\r', b'\n'] } else { vec![*b] }).collect()),
                // The beginning, with a header, stays; the rest differs.
                9 => Some([&whole[..whole.len() / 3], &b"0".repeat(whole.len() - whole.len() / 3)[..]].concat()),
                _ => Some(b"\xff\xfe\x00binary".to_vec()),
            };
            if let Some(b) = before {
                std::fs::create_dir_all(path.parent().unwrap()).unwrap();
                std::fs::write(path, b).unwrap();
                if setup[META] == 3 {
                    set_times(path, UNIX_EPOCH + Duration::from_secs(4_102_444_800));
                }
            }
        }
    } else {
        (rust, typescript) = (None, None);
        args.push("format".into());
        if job == Job::Check {
            args.push("--check".into());
        }
        args.push(spelled.clone());
    }

    let mut c = typical_cmd(&cwd);
    c.args(&args).env("LD_PRELOAD", &world.shim).env("MC_WORLD_SEED", setup[SEED].to_string());
    for (k, v) in &world.envs[setup[ENV]] {
        match v {
            Some(v) => c.env(k, v),
            None => c.env_remove(k),
        };
    }
    if setup[MISC] == 2 {
        // SAFETY: umask is safe to call there.
        unsafe {
            c.pre_exec(|| {
                umask(0o077);
                Ok(())
            });
        }
    }
    if setup[MISC] == 3 {
        c.arg0("/usr/bin/other-name");
    }
    let input: Option<&[u8]> = match setup[MISC] {
        1 => Some(b"struct Foo {}\n"),
        4 => Some(b""),
        _ => None,
    };
    let times = if setup[MISC] == 5 { 3 } else { 1 };
    let mut ran: Ran = run(&mut c, input, Duration::from_secs(60));
    for _ in 1..times {
        ran = run(&mut c, input, Duration::from_secs(60));
    }
    let outcome = Outcome {
        ok: ran.ok(),
        rust: if to_stdout == 1 { Some(ran.out.clone()) } else { rust.and_then(|p| std::fs::read(p).ok()) },
        typescript: if to_stdout == 2 { Some(ran.out.clone()) } else { typescript.and_then(|p| std::fs::read(p).ok()) },
        listing: (listing && setup[SPELLING] == 0).then(|| ran.out.clone()),
        schemas: tree.files.iter().map(|(n, _)| std::fs::read(base.join(n)).ok()).collect(),
        stderr: ran.show(),
    };
    remove(&dir);
    outcome
}

fn show(world: &World, setup: &Setup) -> String {
    let mut out = vec![];
    for d in 0..DIMS {
        if setup[d] != 0 {
            out.push(match d {
                ENV => format!("environment {:?}", world.envs[setup[ENV]]),
                PLACE => format!("in the directory {:?}", PLACES[setup[PLACE]]),
                _ => format!("{} #{}", NAMES[d], setup[d]),
            });
        }
    }
    if out.is_empty() {
        out.push("the usual circumstances, once more".into());
    }
    out.join(", ")
}

fn first_difference(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let near = |s: &[u8]| String::from_utf8_lossy(&s[n.saturating_sub(60)..(n + 60).min(s.len())]).into_owned();
    format!("at byte {n}: {:?} instead of {:?}", near(b), near(a))
}

/// What differs from the usual outcome.
fn compare(usual: &Outcome, tree: &Tree, o: &Outcome) -> Option<String> {
    if usual.ok != o.ok {
        return Some(format!("the run {}: {}", if o.ok { "succeeds" } else { "fails" }, clip(&o.stderr, 1500)));
    }
    for (what, a, b) in [("Rust code", &usual.rust, &o.rust), ("TypeScript code", &usual.typescript, &o.typescript), ("list of schemas", &usual.listing, &o.listing)] {
        if let (Some(a), Some(b)) = (a, b) {
            if a != b {
                return Some(format!("the {what} differs {}", first_difference(a, b)));
            }
        }
    }
    for ((a, b), (name, _)) in usual.schemas.iter().zip(&o.schemas).zip(&tree.files) {
        if a != b {
            return Some(match (a, b) {
                (Some(a), Some(b)) => format!("the schema {name} differs {}", first_difference(a, b)),
                _ => format!("the schema {name} is missing"),
            });
        }
    }
    None
}

/// A tree which has a bit of everything, laid out badly.
fn rich() -> Tree {
    let mut files: Files = vec![];
    let mut main = String::from("# The file.\n\n");
    let dirs = ["alpha", "beta", "gamma/delta", "gamma", "zeta/eta/theta"];
    for i in 0..12 {
        main += &format!("import '{}/f{i}.t' as m{}\n", dirs[i % 5], (i * 7) % 12);
    }
    main += "\n# A comment of a type which is longer than the width of a line so that the formatter has to wrap it.\nstruct Everything {\n";
    for i in 0..12 {
        main += &format!("  # c{i}\n  {} field_{i} : [m{}.Type_{i}] = {i}\n", ["", "optional", "asymmetric"][i % 3], (i * 7) % 12);
    }
    main += "deleted 12 14 13\n}\n choice Some_thing { a = 0 optional b : Everything = 1 asymmetric cC : [[U64]] = 5 deleted 2 3 4 }\n";
    files.push(("main.t".into(), main));
    for i in 0..12 {
        let mut text = String::new();
        if i > 0 {
            let to = dirs[(i - 1) % 5];
            let up = "../".repeat(dirs[i % 5].matches('/').count() + 1);
            text += &format!("import '{up}{to}/f{}.t' as below\nimport '{up}main.t' as top\n", i - 1);
        }
        text += &format!("{} type_{i} {{ x : {} = 0 optional y : [[Bytes]] = 1 asymmetric z : F64 = 3 deleted 2 }}\n", if i % 2 == 0 { "struct" } else { "choice" }, if i > 0 { format!("below.Type_{}", i - 1) } else { "String".into() });
        for k in 0..6 {
            text += &format!("struct T{i}{}{k} {{ a{k} : U64 = 0 }}\n", ["A", "b", "C"][k % 3]);
        }
        files.push((format!("{}/f{i}.t", dirs[i % 5]), text));
    }
    Tree { what: "many files".into(), files, root: "main.t".into() }
}

/// Source text with many different things in it, from a universe.
fn from_universe(u: &mc::model::Universe, k: usize) -> Files {
    u.sources().into_iter().map(|(n, text)| (n, render(&lang::parse(&text).expect("a schema"), Style { space: [1, 2, 0, 7][k % 4], naming: 0, sigils: k % 3 == 1, comment: 0, reverse: k % 2 == 1 }))).collect()
}

fn trees(thorough: bool) -> Vec<Tree> {
    let mut out = vec![rich()];
    out.push(Tree { what: "one file".into(), files: vec![("main.t".into(), "struct Foo { x : U64 = 0 }".into())], root: "main.t".into() });
    out.push(Tree { what: "an empty file".into(), files: vec![("main.t".into(), String::new())], root: "main.t".into() });
    out.push(Tree {
        what: "a circle".into(),
        files: vec![
            ("b.t".into(), "import 'a.t'\nimport 'sub/c.t'\nstruct B { x : c.C = 0 }\n".into()),
            ("a.t".into(), "import 'b.t'\nimport 'sub/c.t' as d\nstruct A { x : b.B = 0 y : d.C = 1 }\n".into()),
            ("sub/c.t".into(), "import '../a.t'\nimport '../b.t' choice C { c = 0 }\n".into()),
        ],
        root: "b.t".into(),
    });
    out.push(Tree { what: "a rejected tree".into(), files: vec![("main.t".into(), "import 'sub/b.t'\nstruct Foo { x : b.Nope = 0 }".into()), ("sub/b.t".into(), "struct  B {}".into())], root: "main.t".into() });
    let universes = families::standard(false);
    for (k, u) in universes.iter().enumerate() {
        if k % if thorough { 3 } else { 25 } == 0 {
            let files = from_universe(u, k);
            out.push(Tree { what: format!("universe {k}"), root: files[0].0.clone(), files });
        }
    }
    for (k, files) in crate::large::good(thorough).into_iter().enumerate() {
        if k % if thorough { 7 } else { 60 } == 0 || files.len() > 60 && k % 3 == 0 {
            out.push(Tree { what: format!("large {k}"), root: files[0].0.clone(), files });
        }
    }
    out
}

fn environments(report: &Report, shim: &Path) -> Vec<Env> {
    // The names which the tool looks up.
    let log = driver::scratch().join("world.log");
    let bare = World { shim: shim.to_owned(), envs: vec![vec![("MC_WORLD_LOG".into(), Some(log.to_string_lossy().into_owned()))]] };
    for tree in trees(false).iter().take(5) {
        for job in [Job::Generate, Job::Format, Job::Check] {
            perform(&bare, tree, job, &[0; DIMS], None);
        }
    }
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let mut names: BTreeSet<String> = text.lines().filter(|l| !l.starts_with('=')).map(str::to_owned).collect();
    let random = text.lines().filter(|l| *l == "=random").count();
    report.note("looked_up", &format!("environment: {}; random numbers: {random} times", names.iter().cloned().collect::<Vec<_>>().join(" ")));
    names.retain(|n| !n.starts_with("LD_") && !n.starts_with("MALLOC_"));
    for n in [
        "HOME", "USER", "LOGNAME", "PWD", "OLDPWD", "SHELL", "TERM", "COLUMNS", "LINES", "TZ", "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_COLLATE", "TMPDIR", "PATH", "EDITOR", "CI", "DEBUG", "VERBOSE",
        "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "RUST_LOG", "RUST_BACKTRACE", "RUST_MIN_STACK", "SOURCE_DATE_EPOCH", "HOSTNAME", "CARGO_PKG_VERSION", "CARGO_MANIFEST_DIR", "OUT_DIR", "TYPICAL",
        "TYPICAL_CONFIG", "XDG_CONFIG_HOME", "NODE_ENV", "PROFILE",
    ] {
        names.insert(n.to_owned());
    }
    let mut out: Vec<Env> = vec![vec![]];
    for n in &names {
        for v in [None, Some(""), Some("0"), Some("1"), Some("true"), Some("/nonexistent/x.t"), Some("tr_TR.UTF-8"), Some("Antarctica/Troll")] {
            if n == "RUST_MIN_STACK" && v.is_some_and(|v| v == "0" || v == "1") {
                continue;
            }
            out.push(vec![(n.clone(), v.map(str::to_owned))]);
        }
    }
    // All of them at once, and none.
    out.push(names.iter().filter(|n| *n != "RUST_MIN_STACK").map(|n| (n.clone(), Some("1".to_owned()))).collect());
    out.push(names.iter().map(|n| (n.clone(), None)).collect());
    out
}

fn circumstances(report: &Report) {
    let shim = build_shim();
    let envs = environments(report, &shim);
    let world = World { shim, envs };
    report.add("environments", world.envs.len() as u64);
    let trees = trees(report.thorough);
    let work: Vec<(&Tree, Job)> = trees.iter().flat_map(|t| [Job::Generate, Job::Format, Job::Check].map(|j| (t, j))).collect();
    let usual: Vec<Outcome> = par_map(driver::THREADS, &work, |_, (t, j)| perform(&world, t, *j, &[0; DIMS], None));
    for ((tree, job), o) in work.iter().zip(&usual) {
        let expected = tree.what != "a rejected tree" && *job != Job::Check || tree.what == "an empty file" || tree.what == "a rejected tree" && *job == Job::Format;
        if o.ok != expected {
            report.violation(&format!("{job:?} of {} ({}): {}", tree.what, clip(&format!("{:?}", tree.files), 1000), clip(&o.stderr, 1500)), &tree.files.iter().map(|(n, t)| file(n, t)).collect::<Vec<_>>());
        }
    }
    let mut tasks: Vec<(usize, Setup)> = vec![];
    for (w, (tree, job)) in work.iter().enumerate() {
        let relevant = |d: usize| *job == Job::Generate || !matches!(d, OUTPUTS | PREVIOUS);
        let big = tree.what == "many files";
        tasks.push((w, [0; DIMS]));
        for d in (0..DIMS).filter(|d| relevant(*d)) {
            let n = world.options(d);
            for o in 1..n {
                // All of the environment is only tried with a few trees.
                if d == ENV && w >= 12 && o % 16 != w % 16 {
                    continue;
                }
                let mut s = [0; DIMS];
                s[d] = o;
                tasks.push((w, s));
            }
            if d == SEED {
                for o in n..if big { 10 * n } else { 2 * n } {
                    let mut s = [0; DIMS];
                    s[d] = o;
                    tasks.push((w, s));
                }
            }
        }
        // Two at a time, except that the environment is reduced.
        let pairs = if report.thorough { w < 18 } else { tree.what == "a circle" || tree.what == "one file" && *job == Job::Generate };
        if pairs {
            for d in (0..DIMS).filter(|d| relevant(*d)) {
                for e in (d + 1..DIMS).filter(|d| relevant(*d)) {
                    for o in (1..world.options(d)).step_by(if d == ENV { 37 } else { 1 }) {
                        for p in 1..world.options(e) {
                            let mut s = [0; DIMS];
                            (s[d], s[e]) = (o, p);
                            tasks.push((w, s));
                        }
                    }
                }
            }
        }
    }
    report.add("circumstances", tasks.len() as u64);
    par_map(driver::THREADS, &tasks, |_, (w, setup)| {
        let (tree, job) = work[*w];
        let setup = *setup;
        let o = perform(&world, tree, job, &setup, Some(&usual[*w]));
        report.add("runs", if setup[MISC] == 5 { 3 } else { 1 });
        if let Some(difference) = compare(&usual[*w], tree, &o) {
            let mut files: Vec<_> = tree.files.iter().map(|(n, t)| file(n, t)).collect();
            files.push(file("CIRCUMSTANCES", show(&world, &setup)));
            report.violation(&format!("{job:?} of {} ({}): {difference}", tree.what, show(&world, &setup)), &files);
        }
    });
    // The list of schemas, for which there is no reference above.
    for tree in &trees {
        let mut s = [0; DIMS];
        s[OUTPUTS] = 5;
        let first = perform(&world, tree, Job::Generate, &s, None);
        for seed in 1..SEEDS {
            s[SEED] = seed;
            let o = perform(&world, tree, Job::Generate, &s, None);
            report.add("runs", 1);
            if let Some(difference) = compare(&first, tree, &o) {
                report.violation(&format!("listing of {} ({}): {difference}", tree.what, show(&world, &s)), &tree.files.iter().map(|(n, t)| file(n, t)).collect::<Vec<_>>());
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// Layouts of the same schemas.

/// Some files: (path, contents). The first is the root.
type Parsed = Vec<(String, LFile)>;

fn map_types(f: &mut LFile, g: &mut impl FnMut(&mut LTy)) {
    fn go(t: &mut LTy, g: &mut impl FnMut(&mut LTy)) {
        match t {
            LTy::Arr(t) => go(t, g),
            t => g(t),
        }
    }
    for d in &mut f.decls {
        for x in &mut d.fields {
            go(&mut x.ty, g);
        }
    }
}

/// Ways to write the same down with other words.
const REWRITES: usize = 10;

fn rewrite(files: &Parsed, how: usize) -> Parsed {
    let mut out = files.clone();
    let words = |n: usize| vec![vec!["Some".to_owned(), format!("comment{n}"), "struct".into(), "x:".into(), "U64".into()], vec!["More".to_owned()]];
    for (path, f) in &mut out {
        match how {
            1 => {
                f.comment.clear();
                for d in &mut f.decls {
                    d.comment.clear();
                    for x in &mut d.fields {
                        x.comment.clear();
                    }
                }
            }
            2 => {
                f.comment = words(0);
                for (i, d) in f.decls.iter_mut().enumerate() {
                    d.comment = words(i);
                    for (k, x) in d.fields.iter_mut().enumerate() {
                        x.comment = words(k);
                    }
                }
            }
            3 => f.imports.reverse(),
            4 | 5 => {
                // Other aliases, in either order.
                let n = f.imports.len();
                let fresh: Vec<(String, String)> = f.imports.iter().enumerate().map(|(i, x)| (names::snake(&x.name), format!("{}{}", if how == 4 { "zz" } else { "Aa" }, if how == 4 { n - i } else { i } + 10))).collect();
                for (x, (_, new)) in f.imports.iter_mut().zip(&fresh) {
                    x.name = new.clone();
                }
                map_types(f, &mut |t| {
                    if let LTy::Named(Some(i), _) = t {
                        if let Some((_, new)) = fresh.iter().find(|(old, _)| *old == names::snake(i)) {
                            *i = new.clone();
                        }
                    }
                });
            }
            6 => {
                // Every import twice, and types through either.
                let mut twice = vec![];
                for (i, x) in f.imports.iter().enumerate() {
                    twice.push(LImport { path: x.path.clone(), name: format!("again{i}") });
                }
                let old: Vec<String> = f.imports.iter().map(|x| names::snake(&x.name)).collect();
                f.imports.extend(twice);
                let mut k = 0;
                map_types(f, &mut |t| {
                    if let LTy::Named(Some(i), _) = t {
                        k += 1;
                        if let (Some(at), true) = (old.iter().position(|o| *o == names::snake(i)), k % 2 == 1) {
                            *i = format!("again{at}");
                        }
                    }
                });
            }
            7 | 8 => {
                for d in &mut f.decls {
                    let next = d.fields.iter().map(|x| x.idx + 1).max().unwrap_or(0);
                    let all = d.fields.iter().map(|x| x.idx + 1).chain(d.deleted.iter().map(|i| i + 1)).max().unwrap_or(0);
                    if how == 7 {
                        d.deleted.retain(|i| *i < next);
                    } else {
                        d.deleted.extend(all..all + 3);
                        d.deleted.reverse();
                    }
                }
            }
            9 => {
                // Other spellings of the paths.
                let here = Path::new(path.as_str()).parent().unwrap().file_name().map(|s| s.to_string_lossy().into_owned());
                for (i, x) in f.imports.iter_mut().enumerate() {
                    x.path = match (&here, i % 2) {
                        (Some(here), 1) => format!("../{here}/{}", x.path),
                        _ => format!("./{}", x.path.replace('/', "//./")),
                    };
                }
            }
            _ => {}
        }
    }
    out
}

/// Generate code for many trees at once. The trees are in directories of a base directory.
fn generate(all: &[&Files]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let dir = fresh_dir("layout");
    let mut root = String::new();
    for (i, files) in all.iter().enumerate() {
        driver::write_files(&dir.join(format!("k{i}")), files);
        root += &format!("import 'k{i}/{}' as k{i}\n", files[0].0);
    }
    std::fs::write(dir.join("root.t"), root).unwrap();
    let ran = run(typical_cmd(&dir).args(["generate", "root.t", "--rust", "o.rs", "--typescript", "o.ts"]), None, Duration::from_secs(120));
    let result = if ran.ok() { Ok((std::fs::read(dir.join("o.rs")).unwrap_or_default(), std::fs::read(dir.join("o.ts")).unwrap_or_default())) } else { Err(clip(&ran.err_text(), 1500)) };
    remove(&dir);
    result
}

/// Whether each pair of trees gives the same code.
fn same(report: &Report, pairs: &[(&Files, &Files, String)], reference: Option<&Result<(Vec<u8>, Vec<u8>), String>>) {
    let own;
    let a = match reference {
        Some(r) => r,
        None => {
            own = generate(&pairs.iter().map(|p| p.0).collect::<Vec<_>>());
            report.add("runs", 1);
            &own
        }
    };
    let b = generate(&pairs.iter().map(|p| p.1).collect::<Vec<_>>());
    report.add("runs", 1);
    if *a == b && b.is_ok() {
        return;
    }
    if pairs.len() > 1 {
        let (x, y) = pairs.split_at(pairs.len() / 2);
        same(report, x, None);
        same(report, y, None);
        return;
    }
    let (from, to, how) = &pairs[0];
    let what = match (a, &b) {
        (Err(e), _) => format!("the tool rejects it: {e}"),
        (_, Err(e)) => format!("the tool rejects the other one: {e}"),
        (Ok(a), Ok(b)) if a.0 != b.0 => format!("the Rust code differs {}", first_difference(&a.0, &b.0)),
        (Ok(a), Ok(b)) => format!("the TypeScript code differs {}", first_difference(&a.1, &b.1)),
    };
    let mut files: Vec<_> = from.iter().map(|(n, t)| file(&format!("one/{n}"), t)).collect();
    files.extend(to.iter().map(|(n, t)| file(&format!("other/{n}"), t)));
    report.violation(&format!("{} and {} ({how}) mean the same, but {what}", clip(&format!("{from:?}"), 800), clip(&format!("{to:?}"), 800)), &files);
}

const PLAIN: Style = Style { space: 1, naming: 0, sigils: false, comment: 0, reverse: false };

fn written(files: &Parsed, style: Style) -> Files {
    files.iter().map(|(n, f)| (n.clone(), render(f, style))).collect()
}

fn layouts(report: &Report) {
    let parse = |files: Files| -> Parsed { files.into_iter().map(|(n, t)| { let f = lang::parse(&t).unwrap_or_else(|e| panic!("{n}: {e:?}: {t}")); (n, f) }).collect() };
    // What there is to be laid out: (files, whether it is about comments).
    let mut subjects: Vec<(Parsed, bool)> = vec![];
    let deps = dep_parsed();
    for (bases, comments) in [(fmt_jobs::structures(report.thorough), false), (fmt_jobs::comment_structures(report.thorough), true)] {
        for (i, b) in bases.into_iter().enumerate() {
            // There are very many comments.
            if comments && !report.thorough && i % 4 != 0 && i > 100 {
                continue;
            }
            let mut files: Parsed = vec![("main.t".into(), b.main)];
            if !files[0].1.imports.is_empty() {
                files.extend(deps.clone());
            }
            subjects.push((files, comments));
        }
    }
    subjects.push((parse(rich().files), false));
    for (k, files) in crate::large::good(report.thorough).into_iter().enumerate() {
        if report.thorough || k % 5 == 0 {
            subjects.push((parse(files), false));
        }
    }
    for (k, u) in families::standard(report.thorough).iter().enumerate() {
        if report.thorough || k % 6 == 0 {
            subjects.push((parse(u.sources()), false));
        }
    }
    // Only valid ones.
    let valid: Vec<bool> = par_map(driver::THREADS, &subjects, |_, (p, _)| {
        let files = written(p, PLAIN);
        lang::judge(&files.iter().cloned().collect(), &files[0].0).ok()
    });
    let mut kept = vec![];
    for (s, v) in subjects.into_iter().zip(valid) {
        if v {
            kept.push(s);
        }
    }
    report.add("schemas_laid_out", kept.len() as u64);
    // The variants: a style and a rewriting.
    let mut variants: Vec<(Style, usize, bool)> = vec![];
    for space in 0..SPACES {
        variants.push((Style { space, ..PLAIN }, 0, false));
    }
    for comment in 1..COMMENTS {
        variants.push((Style { comment, ..PLAIN }, 0, true));
    }
    variants.push((Style { sigils: true, ..PLAIN }, 0, false));
    variants.push((Style { reverse: true, ..PLAIN }, 0, false));
    for how in 1..REWRITES {
        variants.push((PLAIN, how, false));
    }
    // Combinations.
    let step = if report.thorough { 1 } else { 13 };
    for (k, (space, how)) in (0..SPACES).flat_map(|s| (0..REWRITES).map(move |h| (s, h))).enumerate() {
        if k % step == 5 % step {
            variants.push((Style { space, naming: 0, sigils: k % 2 == 0, comment: k % COMMENTS, reverse: k % 3 == 0 }, how, false));
        }
    }
    let batches: Vec<&[(Parsed, bool)]> = kept.chunks(120).collect();
    report.add("layouts", (kept.len() * variants.len()) as u64);
    let references: Vec<(Vec<Files>, Result<(Vec<u8>, Vec<u8>), String>)> = par_map(driver::THREADS, &batches, |_, b| {
        let files: Vec<Files> = b.iter().map(|(p, _)| written(p, PLAIN)).collect();
        let r = generate(&files.iter().collect::<Vec<_>>());
        report.add("runs", 1);
        (files, r)
    });
    let tasks: Vec<(usize, usize)> = (0..batches.len()).flat_map(|b| (0..variants.len()).map(move |v| (b, v))).collect();
    par_map(driver::THREADS, &tasks, |_, (b, v)| {
        let (style, how, only_comments) = variants[*v];
        let (files, reference) = &references[*b];
        if only_comments && !batches[*b].iter().any(|x| x.1) {
            return;
        }
        let others: Vec<Files> = batches[*b].iter().map(|(p, _)| written(&rewrite(p, how), style)).collect();
        let label = format!("{style:?}, rewriting {how}");
        // Both must mean something, and all the rest the same, to the reference model.
        for ((f, o), (p, _)) in files.iter().zip(&others).zip(batches[*b].iter()) {
            report.add("layouts_checked", 1);
            if o != f && !lang::judge(&o.iter().cloned().collect(), &o[0].0).ok() {
                panic!("the layout {label} of {f:?} is wrong: {o:?} {:?}", p[0].1.imports);
            }
        }
        let pairs: Vec<(&Files, &Files, String)> = files.iter().zip(&others).map(|(a, b)| (a, b, label.clone())).collect();
        same(report, &pairs, Some(reference));
    });
    // The same again with what the formatter makes of it.
    let tasks: Vec<usize> = (0..batches.len()).collect();
    par_map(driver::THREADS, &tasks, |_, b| {
        let (files, reference) = &references[*b];
        let cases: Vec<crate::cases::Case> = files.iter().map(|f| crate::cases::Case { files: f.clone(), valid: true, why: String::new() }).collect();
        let (_, formatted, _) = crate::cases::batch(&cases, true);
        let others: Vec<Files> = files.iter().zip(formatted).map(|(f, t)| f.iter().map(|x| x.0.clone()).zip(t).collect()).collect();
        let pairs: Vec<(&Files, &Files, String)> = files.iter().zip(&others).map(|(a, b)| (a, b, "formatted".to_owned())).collect();
        report.add("layouts_checked", pairs.len() as u64);
        same(report, &pairs, Some(reference));
    });
}

fn dep_parsed() -> Parsed {
    fmt_jobs::dep_files().into_iter().map(|(n, t)| (n, lang::parse(&t).expect("a schema"))).collect()
}

// ---------------------------------------------------------------------------------------------------
// Circles of files: any of them can be given.

fn roots(report: &Report) {
    let mut graphs: Vec<(usize, Vec<Vec<usize>>)> = vec![];
    for n in 2..=4_usize {
        let edges: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).filter(move |b| *b != a).map(move |b| (a, b))).collect();
        for m in 0..1_usize << edges.len() {
            if n == 4 && !report.thorough && m.count_ones() > 6 {
                continue;
            }
            let to: Vec<Vec<usize>> = (0..n).map(|a| edges.iter().enumerate().filter(|(i, e)| m >> i & 1 == 1 && e.0 == a).map(|(_, e)| e.1).collect()).collect();
            let reaches_all = |from: usize| {
                let mut seen = vec![false; n];
                let mut stack = vec![from];
                while let Some(x) = stack.pop() {
                    if !std::mem::replace(&mut seen[x], true) {
                        stack.extend(&to[x]);
                    }
                }
                seen.iter().all(|s| *s)
            };
            if (0..n).all(reaches_all) {
                graphs.push((n, to));
            }
        }
    }
    report.add("circles", graphs.len() as u64);
    par_map(driver::THREADS, &graphs, |_, (n, to)| {
        let dir = fresh_dir("circle");
        let name = |i: usize| ["delta", "alpha", "Charlie", "bravo_1"][i];
        let files: Files = (0..*n)
            .map(|i| {
                let mut t = String::new();
                for j in &to[i] {
                    t += &format!("import '{}.t' as x{j}\n", name(*j));
                }
                t += &format!("struct S{i} {{\n    a: U64 = 0\n");
                for (k, j) in to[i].iter().enumerate() {
                    if *j > i {
                        t += &format!("    f{j}: [x{j}.S{j}] = {}\n", k + 1);
                    } else {
                        t += &format!("    g{j}: String = {}\n", k + 1);
                    }
                }
                (format!("{}.t", name(i)), t + "}\n")
            })
            .collect();
        driver::write_files(&dir, &files);
        let mut first: Option<(String, Vec<u8>, Vec<u8>, Vec<u8>)> = None;
        for (root, _) in &files {
            let ran = run(typical_cmd(&dir).args(["generate", root, "--list-schemas", "--rust", "o.rs", "--typescript", "o.ts"]), None, Duration::from_secs(60));
            report.add("runs", 1);
            let mut lines: Vec<&[u8]> = ran.out.split(|b| *b == b'\n').collect();
            lines.sort_unstable();
            let now = (root.clone(), std::fs::read(dir.join("o.rs")).unwrap_or_default(), std::fs::read(dir.join("o.ts")).unwrap_or_default(), lines.join(&b'\n'));
            let bad = if !ran.ok() {
                Some(format!("rejected: {}", ran.show()))
            } else {
                first.as_ref().and_then(|f| {
                    if f.1 != now.1 {
                        Some(format!("the Rust code differs from the one for {}, {}", f.0, first_difference(&f.1, &now.1)))
                    } else if f.2 != now.2 {
                        Some(format!("the TypeScript code differs from the one for {}, {}", f.0, first_difference(&f.2, &now.2)))
                    } else if f.3 != now.3 {
                        Some(format!("the list of schemas differs from the one for {}, {}", f.0, first_difference(&f.3, &now.3)))
                    } else {
                        None
                    }
                })
            };
            if let Some(bad) = bad {
                report.violation(&format!("code for {root} in {files:?}: {bad}"), &files.iter().map(|(n, t)| file(n, t)).collect::<Vec<_>>());
                break;
            }
            first.get_or_insert(now);
        }
        remove(&dir);
    });
}

// ---------------------------------------------------------------------------------------------------
// Histories of edits and runs in one directory.

fn histories(report: &Report) {
    // The second version is as long as the first, and the third has nothing.
    let versions: [Files; 4] = [
        vec![("main.t".into(), "import 'sub/b.t'\nstruct Foo { bar : b.B = 0 }\n".into()), ("sub/b.t".into(), "choice B { x = 0 }\n".into())],
        vec![("main.t".into(), "import 'sub/b.t'\nstruct Foo { baz : b.B = 0 }\n".into()), ("sub/b.t".into(), "choice B { y = 0 }\n".into())],
        vec![("main.t".into(), "".into()), ("sub/b.t".into(), "choice B { y = 0 }\n".into())],
        vec![("main.t".into(), "import 'sub/b.t'\nstruct Foo { bar : b.B = 0 optional another_field : [String] = 1 }\n".into()), ("sub/b.t".into(), "choice B { x = 0 optional z = 7 deleted 1 2 3 4 5 6 }\n".into())],
    ];
    // Edit to a version, generate (Rust, TypeScript, both), format.
    const ACTIONS: usize = 8;
    let fresh: Vec<(Vec<u8>, Vec<u8>, Files)> = versions
        .iter()
        .map(|v| {
            let dir = fresh_dir("fresh");
            driver::write_files(&dir, v);
            let a = run(typical_cmd(&dir).args(["generate", "main.t", "--rust", "o.rs", "--typescript", "o.ts"]), None, Duration::from_secs(60));
            let b = run(typical_cmd(&dir).args(["format", "main.t"]), None, Duration::from_secs(60));
            if !a.ok() || !b.ok() {
                report.violation(&format!("generating or formatting {v:?} fails: {} {}", a.show(), b.show()), &[]);
            }
            let r = (
                std::fs::read(dir.join("o.rs")).unwrap_or_default(),
                std::fs::read(dir.join("o.ts")).unwrap_or_default(),
                v.iter().map(|(n, _)| (n.clone(), std::fs::read_to_string(dir.join(n)).unwrap_or_default())).collect(),
            );
            remove(&dir);
            r
        })
        .collect();
    let length = if report.thorough { 5 } else { 4 };
    let all: Vec<Vec<usize>> = sequences(ACTIONS, length).filter(|s| s.len() == length && s[0] != s[1]).collect();
    report.add("histories", all.len() as u64);
    par_map(driver::THREADS, &all, |_, actions| {
        let dir = fresh_dir("history");
        driver::write_files(&dir, &versions[0]);
        let mut at = 0;
        let mut formatted = false;
        let (mut rust, mut typescript): (Option<usize>, Option<usize>) = (None, None);
        for (k, a) in actions.iter().enumerate() {
            match a {
                0..=3 => {
                    at = *a;
                    formatted = false;
                    driver::write_files(&dir, &versions[at]);
                }
                7 => {
                    run(typical_cmd(&dir).args(["format", "main.t"]), None, Duration::from_secs(60));
                    report.add("runs", 1);
                    // The files which are not imported stay as they are.
                    formatted = true;
                }
                _ => {
                    let list: &[&str] = match a {
                        4 => &["generate", "main.t", "--rust", "o.rs"],
                        5 => &["generate", "main.t", "--typescript", "o.ts"],
                        _ => &["generate", "main.t", "--rust", "o.rs", "--typescript", "o.ts"],
                    };
                    run(typical_cmd(&dir).args(list), None, Duration::from_secs(60));
                    report.add("runs", 1);
                    if *a != 5 {
                        rust = Some(at);
                    }
                    if *a != 4 {
                        typescript = Some(at);
                    }
                }
            }
            let schemas: BTreeMap<String, Vec<u8>> = if formatted { &fresh[at].2 } else { &versions[at] }.iter().map(|(n, t)| (n.clone(), t.clone().into_bytes())).collect();
            let mut wrong = None;
            for (name, want) in schemas.into_iter().map(|(n, t)| (n, Some(t))).chain([("o.rs".to_owned(), rust.map(|v| fresh[v].0.clone())), ("o.ts".to_owned(), typescript.map(|v| fresh[v].1.clone()))]) {
                let got = std::fs::read(dir.join(&name)).ok();
                if got != want {
                    wrong = Some(format!("{name} is not what a fresh run gives: {}", first_difference(&want.unwrap_or_default(), &got.unwrap_or_default())));
                }
            }
            if let Some(w) = wrong {
                let names = ["edit 0", "edit 1", "edit 2", "edit 3", "generate Rust", "generate TypeScript", "generate both", "format"];
                let said: Vec<&str> = actions[..=k].iter().map(|a| names[*a]).collect();
                report.violation(&format!("after {}: {w}", said.join(", ")), &[file("VERSIONS", format!("{versions:#?}"))]);
                break;
            }
        }
        remove(&dir);
    });
}

/// Whether the interposed random numbers are in effect: otherwise the exploration of hash orders is void.
fn self_test(report: &Report) {
    let shim = driver::scratch().join("world.so");
    let dir = fresh_dir("probe");
    let source = "use std::hash::{BuildHasher, RandomState}; fn main() { println!(\"{}\", RandomState::new().hash_one(1)); }";
    std::fs::write(dir.join("p.rs"), source).unwrap();
    let built = run(driver::rustc().current_dir(&dir).args(["--edition", "2021", "-o", "p", "p.rs"]), None, Duration::from_secs(120));
    assert!(built.ok(), "{}", built.show());
    let get = |seed: usize| run(Command::new(dir.join("p")).env("LD_PRELOAD", &shim).env("MC_WORLD_SEED", seed.to_string()), None, Duration::from_secs(20)).out_text();
    let distinct: BTreeSet<String> = (0..SEEDS).map(get).collect();
    let again: BTreeSet<String> = (0..SEEDS).map(get).collect();
    assert!(distinct == again && distinct.len() == SEEDS, "the random numbers are not under control: {distinct:?}");
    report.note("hash_seeds", &format!("{SEEDS} seeds of hash tables, under control"));
    remove(&dir);
}

pub fn c17(report: &Report) -> i32 {
    let slow = std::env::var("MC_SLOW").is_ok();
    let lap = Mutex::new(report.seconds());
    let time = |what: &str| {
        if slow {
            let mut l = lap.lock().unwrap();
            eprintln!("{what}: {:.1} s", report.seconds() - *l);
            *l = report.seconds();
        }
    };
    circumstances(report);
    time("circumstances");
    self_test(report);
    layouts(report);
    time("layouts");
    roots(report);
    time("roots");
    histories(report);
    time("histories");
    report.assume("random numbers, the time and the identity of the process are only learned through the C library (getrandom, clock_gettime, ...)");
    report.assume("the given schema itself is not a symbolic link");
    report.finish()
}
