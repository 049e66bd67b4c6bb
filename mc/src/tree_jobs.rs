//! The check of imports: C15.
use crate::cases;
use crate::driver::{self, run, typical_cmd};
use crate::lang_jobs::sequences;
use crate::report::{file, Report};
use mc::lang;
use mc::model::relative;
use mc::util::par_map;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::Duration;

/// A file system: paths from the top (without a slash in front) to files and symbolic links. The
/// directories are those on the way to something.
#[derive(Clone, Default)]
pub struct Fs {
    files: BTreeMap<String, String>,
    links: BTreeMap<String, String>,
}

impl Fs {
    fn is_dir(&self, at: &str) -> bool {
        let p = format!("{at}/");
        at.is_empty() || self.files.keys().chain(self.links.keys()).any(|k| k.starts_with(&p))
    }
    /// Where a path leads to, from a directory, following symbolic links as POSIX has it.
    fn canon(&self, dir: &str, path: &str, top: &str, budget: &mut usize) -> Option<String> {
        let mut at: Vec<String> = dir.split('/').filter(|s| !s.is_empty()).map(str::to_owned).collect();
        let mut path = path.to_owned();
        if path.starts_with('/') {
            // Absolute paths are understood below the top only.
            let rest = path.strip_prefix(top)?.to_owned();
            if !rest.is_empty() && !rest.starts_with('/') {
                return None;
            }
            at.clear();
            path = rest;
        }
        let want_dir = path.ends_with('/') || path.ends_with("/.") || path.ends_with("/..");
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let here = at.join("/");
            if !self.is_dir(&here) {
                return None;
            }
            match c {
                "." => {}
                ".." => {
                    // Nothing is known above the top.
                    at.pop()?;
                }
                c => {
                    at.push(c.to_owned());
                    let here = at.join("/");
                    if let Some(target) = self.links.get(&here) {
                        if *budget == 0 {
                            return None;
                        }
                        *budget -= 1;
                        at.pop();
                        let to = self.canon(&at.join("/"), target, top, budget)?;
                        at = to.split('/').filter(|s| !s.is_empty()).map(str::to_owned).collect();
                    } else if !self.files.contains_key(&here) && !self.is_dir(&here) {
                        return None;
                    }
                }
            }
        }
        let here = at.join("/");
        if want_dir && !self.is_dir(&here) {
            return None;
        }
        Some(here)
    }
    fn create(&self, top: &Path) {
        for (p, t) in &self.files {
            let p = top.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t).unwrap();
        }
        for (p, t) in &self.links {
            let p = top.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::os::unix::fs::symlink(t, p).unwrap();
        }
    }
    fn keep(&self) -> Vec<(String, Vec<u8>)> {
        let mut out: Vec<_> = self.files.iter().map(|(n, t)| file(n, t)).collect();
        out.push(file("LINKS", format!("{:?}", self.links)));
        out
    }
}

/// What happens with the schema at `root` (a path from the top): the files which are loaded, or why
/// it is rejected. Contents which cannot be parsed are recognized as such.
fn expect(fs: &Fs, root: &str, top: &str) -> Result<BTreeSet<String>, String> {
    let base = match root.rsplit_once('/') {
        Some((b, _)) => b.to_owned(),
        None => String::new(),
    };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut spaces: BTreeMap<Vec<String>, String> = BTreeMap::new();
    let mut todo = vec![root.to_owned()];
    let inside = |p: &str| if base.is_empty() { Some(p.to_owned()) } else { p.strip_prefix(&format!("{base}/")).map(str::to_owned) };
    let mut types: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut uses: Vec<(String, String)> = vec![];
    while let Some(p) = todo.pop() {
        if !seen.insert(p.clone()) {
            continue;
        }
        let rel = inside(&p).ok_or_else(|| format!("{p} is outside of {base}"))?;
        let ns = lang::namespace(&rel);
        if !lang::namespace_valid(&ns) {
            return Err(format!("{p} has no valid namespace"));
        }
        if let Some(other) = spaces.insert(ns, p.clone()) {
            return Err(format!("{p} and {other} have the same namespace"));
        }
        let parsed = lang::parse(fs.files.get(&p).ok_or_else(|| format!("{p} is no file"))?).map_err(|e| format!("{p}: {e:?}"))?;
        let dir = p.rsplit_once('/').map_or("", |x| x.0);
        let mut names = BTreeMap::new();
        for i in &parsed.imports {
            let target = fs.canon(dir, &i.path, top, &mut 40).ok_or_else(|| format!("{p} imports {:?}, which does not exist", i.path))?;
            if !fs.files.contains_key(&target) {
                return Err(format!("{p} imports {:?}, which is no file", i.path));
            }
            names.insert(mc::names::snake(&i.name), target.clone());
            todo.push(target);
        }
        for d in &parsed.decls {
            types.entry(p.clone()).or_default().insert(mc::names::snake(&d.name));
            for f in &d.fields {
                if let lang::LTy::Named(i, n) = &f.ty {
                    let t = match i {
                        None => p.clone(),
                        Some(i) => names.get(&mc::names::snake(i)).ok_or_else(|| format!("{p}: no import named {i}"))?.clone(),
                    };
                    uses.push((t, mc::names::snake(n)));
                }
            }
        }
    }
    for (t, n) in uses {
        if !types.get(&t).is_some_and(|s| s.contains(&n)) {
            return Err(format!("no type {n} in {t}"));
        }
    }
    Ok(seen)
}

/// Run the tool and compare what it loads with what is expected. `spelling` is how the root is
/// given, from the directory `cwd` (from the top).
fn check(report: &Report, fs: &Fs, top: &Path, root: &str, cwd: &str, spelling: &str, marks: bool) {
    let expected = expect(fs, root, &top.to_string_lossy());
    let mut cmd = typical_cmd(&top.join(cwd));
    let outs = cases::fresh_dir("o");
    cmd.args(["generate", spelling, "--list-schemas"]);
    if marks {
        cmd.arg("--rust").arg(outs.join("o.rs")).arg("--typescript").arg(outs.join("o.ts"));
    }
    let ran = run(&mut cmd, None, Duration::from_secs(60));
    report.add("runs", 1);
    let describe = || format!("`typical generate {spelling} --list-schemas` in {cwd:?}");
    match (&expected, ran.ok()) {
        _ if ran.crash().is_some() => report.violation(&format!("{}: {}", describe(), ran.crash().unwrap()), &fs.keep()),
        (Ok(files), true) => {
            report.add("accepted", 1);
            let listed: Vec<String> = ran.out_text().lines().map(str::to_owned).collect();
            let mut got: Vec<String> = listed
                .iter()
                .map(|l| {
                    let p = top.join(cwd).join(l);
                    p.canonicalize().map_or_else(|_| l.clone(), |c| c.strip_prefix(top).map_or(c.clone(), Path::to_path_buf).to_string_lossy().into_owned())
                })
                .collect();
            got.sort();
            let want: Vec<String> = files.iter().cloned().collect();
            if got != want {
                report.violation(&format!("{} listed {listed:?} ({got:?}), expected {want:?}", describe()), &fs.keep());
            }
            if marks {
                // The types of exactly these files are in the generated code.
                for ext in ["rs", "ts"] {
                    let code = std::fs::read_to_string(outs.join(format!("o.{ext}"))).unwrap_or_default();
                    let words: BTreeSet<&str> = code.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
                    for (p, t) in &fs.files {
                        let Ok(parsed) = lang::parse(t) else { continue };
                        for d in &parsed.decls {
                            let there = words.contains(format!("{}Out", mc::names::pascal(&d.name)).as_str());
                            if there != files.contains(p) {
                                report.violation(&format!("{}: the type {} of {p} {} in the generated code (.{ext})", describe(), d.name, if there { "is" } else { "is not" }), &fs.keep());
                            }
                        }
                    }
                }
            }
        }
        (Err(_), false) => report.add("rejected", 1),
        (Ok(files), false) => report.violation(&format!("{} fails, although it should load {files:?}: {}", describe(), ran.show()), &fs.keep()),
        (Err(why), true) => report.violation(&format!("{} succeeds, although {why}: {}", describe(), ran.show()), &fs.keep()),
    }
    cases::remove(&outs);
}

/// The import graphs: all of them on a few files. Files which cannot be reached are broken.
fn graphs(report: &Report) {
    let layouts: [&[&str]; 5] = [
        &["main.t", "a.t", "b.t", "c.t"],
        &["main.t", "sub/a.t", "sub/b.t", "c.t"],
        &["main.t", "sub/main.t", "sub/deep/main.t", "other/main.t"],
        &["types.t", "types/a.t", "types/a/b.t", "types/a/b/c.t"],
        &["z.t", "m/n.t", "m/n/z.t", "a.t"],
    ];
    let mut jobs: Vec<(usize, usize, u32)> = vec![];
    for l in 0..layouts.len() {
        for m in 0..1_u32 << 9 {
            jobs.push((l, 3, m));
        }
    }
    for m in 0..1_u32 << 16 {
        if m.count_ones() <= if report.thorough { 8 } else { 4 } {
            jobs.push((m as usize % layouts.len(), 4, m));
        }
    }
    par_map(driver::THREADS, &jobs, |_, (l, n, m)| {
        let names = &layouts[*l][..*n];
        let edge = |a: usize, b: usize| m >> (a * n + b) & 1 == 1;
        let mut reach = vec![0];
        let mut k = 0;
        while k < reach.len() {
            for b in 0..*n {
                if edge(reach[k], b) && !reach.contains(&b) {
                    reach.push(b);
                }
            }
            k += 1;
        }
        let top = cases::fresh_dir("graph");
        // Everything is fine, or one file is broken: that matters only if it is reachable.
        let broken_choices: Vec<Option<usize>> = [None].into_iter().chain((1..*n).map(Some)).collect();
        for broken in broken_choices {
            if broken.is_some_and(|b| reach.contains(&b)) && m % 3 != 0 {
                continue;
            }
            let mut fs = Fs::default();
            for a in 0..*n {
                let mut text = String::new();
                for b in 0..*n {
                    if edge(a, b) {
                        text += &format!("import '{}' as i{b}\n", relative(names[a], names[b]));
                    }
                }
                text += &format!("struct Mark{a} {{}}\n\nchoice Holder{a} {{\n");
                for b in 0..*n {
                    if edge(a, b) {
                        text += &format!("    f{b}: i{b}.Mark{b} = {}\n", (0..b).filter(|c| edge(a, *c)).count());
                    }
                }
                text += "}\n";
                if broken == Some(a) {
                    text += "struct {\n";
                }
                fs.files.insert(names[a].to_owned(), text);
            }
            fs.create(&top);
            report.add("graphs", 1);
            let root = names[0];
            let spelling = if *n == 3 { [root.to_owned(), format!("./{root}"), top.join(root).to_string_lossy().into_owned()][*m as usize % 3].clone() } else { root.to_owned() };
            check(report, &fs, &top, root, "", &spelling, broken.is_none() || m % 7 == 0);
        }
        cases::remove(&top);
    });
}

/// Many files, and deep directories: chains, stars, trees and rings.
fn large(report: &Report) {
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for &n in if report.thorough { &[20, 34, 66, 130, 258, 1026][..] } else { &[20, 66, 130, 258][..] } {
        for shape in 0..5 {
            for layout in 0..3 {
                jobs.push((n, shape, layout));
            }
        }
    }
    par_map(driver::THREADS, &jobs, |_, (n, shape, layout)| {
        let n = if *layout == 1 { (*n).min(66) } else { *n };
        let path = |i: usize| -> String {
            match layout {
                // All in one directory, one directory below the other, or a directory for each of some.
                _ if i == 0 => "main.t".to_owned(),
                0 => format!("f{i}.t"),
                1 => format!("{}f{i}.t", (0..i).map(|k| format!("d{}/", k % 3)).collect::<String>()),
                _ => format!("d{}/e{}/f{i}.t", i % 11, i % 3),
            }
        };
        let next = |i: usize| -> Vec<usize> {
            match shape {
                0 => vec![i + 1],
                1 => if i == 0 { (1..n).collect() } else { vec![] },
                2 => vec![2 * i + 1, 2 * i + 2],
                3 => vec![(i + 1) % n, (i + n / 2) % n],
                // The last one of the star has the others.
                _ => if i == 0 { vec![n - 1] } else if i == n - 1 { (0..n - 1).collect() } else { vec![] },
            }
            .into_iter()
            .filter(|k| *k < n)
            .collect()
        };
        // Everything is fine, a file is broken, or a file is missing; there are files which nobody imports.
        for (broken, missing) in [(None, None), (Some(n - 1), None), (Some(n / 2), None), (None, Some(n - 1)), (None, Some(n / 2 + 1))] {
            let mut fs = Fs::default();
            for i in (0..n).filter(|i| missing != Some(*i)) {
                let head: String = next(i).iter().map(|k| format!("import '{}' as i{k}x\n", relative(&path(i), &path(*k)))).collect();
                let uses: String = next(i).iter().filter(|k| **k > i).enumerate().map(|(at, k)| format!("    f{k}x: i{k}x.Mark{k}x = {at}\n")).collect();
                fs.files.insert(path(i), format!("{head}struct Mark{i}x {{\n{uses}}}\n{}", if broken == Some(i) { "struct {\n" } else { "" }));
            }
            fs.files.insert("f0.t".into(), "struct {\n".into());
            fs.files.insert(format!("d0/f{n}.t"), "struct {\n".into());
            let top = cases::fresh_dir("large");
            fs.create(&top);
            report.add("large", 1);
            check(report, &fs, &top, "main.t", "", "main.t", broken.is_none());
            cases::remove(&top);
        }
    });
}

/// A tree with files of the same name, and links.
fn rich() -> Fs {
    let mut fs = Fs::default();
    for p in ["out.t", "base/main.t", "base/a.t", "base/sub/a.t", "base/sub/b.t", "base/sub/deep/a.t", "base/sub/deep/c.t", "base/noext", "base/sub/base/a.t", "elsewhere/a.t"] {
        let mark: String = p.split(|c: char| !c.is_alphanumeric()).map(mc::names::pascal).collect();
        fs.files.insert(p.to_owned(), format!("struct Mark{mark} {{}}\n"));
    }
    for (p, t) in [
        ("base/link.t", "a.t"),
        ("base/dlink", "sub"),
        ("base/sub/uplink", ".."),
        ("base/sub/deep/outlink", "../../.."),
        ("base/outlink.t", "../out.t"),
        ("base/sub/broken.t", "missing"),
        ("base/loop.t", "loop.t"),
        ("base/twice.t", "dlink/../link.t"),
        ("base/sub/far", "../../elsewhere"),
    ] {
        fs.links.insert(p.to_owned(), t.to_owned());
    }
    fs
}

/// Every path of a few components, from files in different directories.
fn spellings(report: &Report) {
    let parts = [".", "..", "", "a.t", "sub", "deep", "dlink", "uplink", "link.t", "base", "missing", "b.t", "outlink", "main.t", "twice.t", "broken.t", "loop.t", "outlink.t", "far", "noext"];
    let fs = rich();
    let mut paths: BTreeSet<String> = BTreeSet::new();
    for n in 1..=(if report.thorough { 4 } else { 3 }) {
        for s in sequences(parts.len(), n) {
            let p = s.iter().map(|i| parts[*i]).collect::<Vec<_>>().join("/");
            if !p.is_empty() {
                paths.insert(p);
            }
        }
    }
    for p in ["../../base/a.t", "../base/../base/a.t", "sub/../sub/../a.t", "././././a.t", "sub//deep///a.t", "../base/sub/deep/../../a.t", "@/base/a.t", "@/base/sub/../a.t", "@/out.t", "@//base//dlink/a.t", "@/base/../base/sub/b.t"] {
        paths.insert(p.to_owned());
    }
    // Most of those which lead nowhere are alike: some of them are enough.
    let importers = ["base/main.t", "base/sub/b.t", "base/sub/deep/c.t"];
    let mut jobs = vec![];
    for (ii, importer) in importers.iter().enumerate() {
        let dir = importer.rsplit_once('/').unwrap().0;
        let mut nowhere = 0;
        for p in &paths {
            let target = fs.canon(dir, p, "@", &mut 40);
            if target.as_ref().is_none_or(|t| !fs.files.contains_key(t)) {
                nowhere += 1;
                if !report.thorough && nowhere % 4 != 0 {
                    continue;
                }
            }
            jobs.push((ii, p.clone(), target));
        }
    }
    let threads = driver::THREADS;
    let chunks: Vec<&[(usize, String, Option<String>)]> = jobs.chunks(jobs.len().div_ceil(threads * 4)).collect();
    par_map(threads, &chunks, |_, chunk| {
        let top: PathBuf = cases::fresh_dir("rich");
        let original = rich();
        original.create(&top);
        for (ii, path, target) in *chunk {
            let importer = importers[*ii];
            let mut fs = original.clone();
            let path = path.replace('@', &top.to_string_lossy());
            // The root reaches the importing file.
            if *ii != 0 {
                let main = format!("import '{}' as there\n\nstruct Main {{}}\n", relative("base/main.t", importer));
                fs.files.insert("base/main.t".into(), main);
            }
            // Where the path leads is seen from the types which are found there.
            let mark = match target {
                Some(t) if fs.files.contains_key(t) => t.split(|c: char| !c.is_alphanumeric()).map(mc::names::pascal).collect::<String>(),
                _ => "BaseAT".into(),
            };
            for wrong in [false, true] {
                let mark = if wrong { "Nowhere".to_owned() } else { mark.clone() };
                if wrong && target.is_none() {
                    continue;
                }
                let own: String = importer.split(|c: char| !c.is_alphanumeric()).map(mc::names::pascal).collect();
                fs.files.insert(importer.to_owned(), format!("import '{path}' as it\n\nstruct Mark{own} {{}}\n\nstruct User {{\n    x: it.Mark{mark} = 0\n}}\n"));
                for p in ["base/main.t", importer] {
                    std::fs::write(top.join(p), &fs.files[p]).unwrap();
                }
                report.add("spellings", 1);
                check(report, &fs, &top, "base/main.t", "base", "main.t", false);
            }
            for p in ["base/main.t", importer] {
                std::fs::write(top.join(p), &original.files[p]).unwrap();
            }
        }
        cases::remove(&top);
    });
    // How the root is spelled, from where.
    let top = cases::fresh_dir("rich");
    let mut fs = original_with_imports();
    fs.links.extend(rich().links);
    fs.create(&top);
    let t = top.to_string_lossy().into_owned();
    for (cwd, spelling) in [
        ("base", "main.t"),
        ("base", "./main.t"),
        ("base", "../base/main.t"),
        ("base", "sub/../main.t"),
        ("base", "dlink/../main.t"),
        ("", "base/main.t"),
        ("", "./base//main.t"),
        ("base/sub", "../main.t"),
        ("base/sub", "uplink/main.t"),
        ("base/sub/deep", "../../main.t"),
        ("base/sub/deep", "outlink/base/main.t"),
        ("elsewhere", "../base/main.t"),
        ("elsewhere", "@/base/main.t"),
        ("", "@/base/../base/./main.t"),
    ] {
        report.add("root_spellings", 1);
        check(report, &fs, &top, "base/main.t", cwd, &spelling.replace('@', &t), true);
    }
    for (cwd, spelling) in [("base", "missing.t"), ("base", "."), ("base", ".."), ("base", "/"), ("base", "sub"), ("base", "sub/"), ("base", "main.t/"), ("base", "loop.t"), ("base", "sub/broken.t"), ("base", ""), ("base", "main.t/.."), ("base", "./")] {
        report.add("root_spellings", 1);
        let ran = run(typical_cmd(&top.join(cwd)).args(["generate", spelling, "--list-schemas"]), None, Duration::from_secs(60));
        let slash = spelling == "main.t/";
        if ran.crash().is_some() || (ran.ok() && !slash) {
            report.violation(&format!("`typical generate {spelling:?}` in {cwd}: {}", ran.show()), &fs.keep());
        }
        report.add("runs", 1);
        report.add("rejected", 1);
    }
    cases::remove(&top);
}

/// Directories next to the base directory whose names are like its name.
fn siblings(report: &Report) {
    let bases = ["base", "a", "x.t", "a b", "é"];
    let others: [&str; 16] = ["base2", "bas", "Base", "base.t", "base_", "base-old", "ab", "A", "a.t", "x", "x.t.t", "a b c", "e", "éé", "base base", "as"];
    let mut jobs = vec![];
    for b in bases {
        for o in others {
            jobs.push((b, o));
        }
    }
    par_map(driver::THREADS, &jobs, |_, (b, o)| {
        let tail: String = o.strip_prefix(b).unwrap_or(o).to_owned();
        for absolute in [false, true] {
            for deep in [false, true] {
                for inside in [false, true] {
                    let top = cases::fresh_dir("siblings");
                    let mut fs = Fs::default();
                    let up = if absolute { format!("{}/", top.to_string_lossy()) } else if deep { "../../".into() } else { "../".into() };
                    let text = format!("import '{up}{o}/foo.t' as it\n\nstruct MarkMain {{\n    x: it.MarkFoo = 0\n}}\n");
                    fs.files.insert(format!("{o}/foo.t"), "struct MarkFoo {}\n".into());
                    if deep {
                        fs.files.insert(format!("{b}/main.t"), "import 'sub/x.t'\n".into());
                        fs.files.insert(format!("{b}/sub/x.t"), text);
                    } else {
                        fs.files.insert(format!("{b}/main.t"), text);
                    }
                    if inside {
                        for t in [&tail, *o] {
                            fs.files.insert(format!("{b}/{t}/foo.t"), "struct MarkFoo {}\n".into());
                        }
                    }
                    fs.create(&top);
                    report.add("siblings", 1);
                    check(report, &fs, &top, &format!("{b}/main.t"), if deep { b } else { "" }, &if deep { "main.t".to_owned() } else { format!("{b}/main.t") }, false);
                    cases::remove(&top);
                }
            }
        }
    });
}

/// The root is given as a link to a schema in another directory: its imports are relative to the
/// directory of the link, and the base directory is that of the schema itself.
fn linked_roots(report: &Report) {
    // What is next to the link under the names which matter: nothing, a file, or a link.
    let here = ["", "file", "real/a.t", "real/sub/b.t", "real/sub/a.t", "out.t"];
    let mut jobs = vec![];
    for s in sequences(here.len(), 3) {
        for import in ["a.t", "sub/b.t", "sub/a.t"] {
            for deep in [false, true] {
                jobs.push((s.clone(), import, deep));
            }
        }
    }
    par_map(driver::THREADS, &jobs, |_, (s, import, deep)| {
        let home = if *deep { "base/sub/deep" } else { "base" };
        let mark = |p: &str| -> String { p.split(|c: char| !c.is_alphanumeric()).map(mc::names::pascal).collect() };
        let mut fs = Fs::default();
        for p in ["real/a.t", "real/sub/b.t", "real/sub/a.t", "out.t"] {
            fs.files.insert(p.to_owned(), format!("struct Mark{} {{}}\n", mark(p)));
        }
        for (p, h) in ["a.t", "sub/b.t", "sub/a.t"].iter().zip(s) {
            let at = format!("{home}/{p}");
            match here[*h] {
                "" => {}
                "file" => {
                    let text = format!("struct Mark{} {{}}\n", mark(&at));
                    fs.files.insert(at, text);
                }
                to => {
                    let to = relative(&at, to);
                    fs.links.insert(at, to);
                }
            }
        }
        fs.links.insert(format!("{home}/main.t"), relative(&format!("{home}/main.t"), "real/main.t"));
        fs.files.insert("real/main.t".into(), String::new());
        let target = fs.canon(home, import, "", &mut 40).filter(|t| fs.files.contains_key(t));
        // What it means, if anything.
        let means = target.as_ref().filter(|t| t.starts_with("real/"));
        // A file which is found through the link, but is read from where it would be next to the link.
        let astray = means.is_some_and(|t| fs.canon(home, t.strip_prefix("real/").unwrap(), "", &mut 40).as_ref() != Some(t));
        for wrong in [false, true] {
            let used = if wrong { "Nowhere".to_owned() } else { mark(target.as_deref().unwrap_or("none")) };
            fs.files.insert("real/main.t".into(), format!("import '{import}' as it\n\nstruct User {{\n    x: it.Mark{used} = 0\n}}\n"));
            let top = cases::fresh_dir("linked");
            fs.create(&top);
            let ran = run(typical_cmd(&top).args(["generate", &format!("{home}/main.t"), "--list-schemas"]), None, Duration::from_secs(60));
            report.add("linked_roots", 1);
            report.add("runs", 1);
            let good = means.is_some() && !wrong;
            report.add(if good { "accepted" } else { "rejected" }, 1);
            let what = || format!("{home}/main.t links to real/main.t, which imports {import} ({target:?}) and uses Mark{used} of it; files {:?}, links {:?}: {}", fs.files.keys(), fs.links, ran.show());
            if ran.crash().is_some() {
                report.violation(&what(), &fs.keep());
            } else if ran.ok() != good {
                if astray && !ran.ok() {
                    report.finding("D31", 1, &what(), &fs.keep());
                } else {
                    report.violation(&what(), &fs.keep());
                }
            }
            cases::remove(&top);
        }
    });
}

fn original_with_imports() -> Fs {
    let mut fs = Fs { files: rich().files, links: BTreeMap::new() };
    fs.files.insert("base/main.t".into(), "import 'a.t'\nimport 'sub/b.t'\nimport 'sub/a.t' as other\nstruct MarkBaseMainT { x: a.MarkBaseAT = 0 y: other.MarkBaseSubAT = 1 }\n".into());
    fs.files.insert("base/sub/b.t".into(), "import 'deep/../deep/c.t'\nimport '../main.t'\nstruct MarkBaseSubBT { x: c.MarkBaseSubDeepCT = 0 }\n".into());
    fs
}

const FILE_NAMES: &[&str] = &[
    "foo.t", "Foo.t", "FOO.t", "fOo.t", "foo_.t", "foo.u", "foo", "foo.t.t", "foo_bar.t", "fooBar.t", "foo-bar.t", "FooBar.t", "foo bar.t", "foo1.t", "foo_1.t", "1foo.t", "_foo.t", "-foo.t", ".t", "..t",
    ".foo.t", "import.t", "struct.t", "self.t", "mod.t", "crate.t", "main.u", "Main.t", "été.t", "名.t", "foo$.t", "a.b.t", "foo__bar.t", "foo+.t", "é.t", "É.t", "type.t", "String.t",
];

/// Pairs of names of files and of directories.
fn names(report: &Report) {
    let mut jobs = vec![];
    for (i, a) in FILE_NAMES.iter().enumerate() {
        for (k, b) in FILE_NAMES.iter().enumerate() {
            if i != k {
                jobs.push(vec![(*a).to_owned(), (*b).to_owned()]);
                let dir = |n: &str| n.trim_end_matches(".t").to_owned();
                jobs.push(vec![format!("{}x/x.t", dir(a)), format!("{}x/x.t", dir(b))]);
                jobs.push(vec![format!("sub/{a}"), format!("Sub/{b}")]);
                if !dir(a).is_empty() {
                    jobs.push(vec![format!("{}/{b}", dir(a)), (*b).to_owned()]);
                }
            }
        }
        jobs.push(vec![(*a).to_owned()]);
        jobs.push(vec![format!("{}/a.t", a.trim_end_matches(".t")), format!("{}.t", a.trim_end_matches(".t"))]);
    }
    par_map(driver::THREADS, &jobs, |k, names| {
        if names.iter().any(|n| n.split('/').any(|c| matches!(c, "." | ".."))) {
            return;
        }
        let top = cases::fresh_dir("names");
        let mut fs = Fs::default();
        let mut main = String::new();
        let mut holder = String::new();
        for (i, n) in names.iter().enumerate() {
            main += &format!("import '{n}' as i{i}\n");
            holder += &format!("    f{i}: i{i}.Mark{i} = {i}\n");
            fs.files.insert(n.clone(), format!("struct Mark{i} {{}}\n"));
        }
        // The same file again by another name, which is fine.
        if k % 2 == 0 {
            main += &format!("import './{}' as again\n", names[0]);
            holder += &format!("    again: again.Mark0 = {}\n", names.len());
        }
        fs.files.insert("main.t".into(), format!("{main}\nstruct Root {{\n{holder}}}\n"));
        let clash = fs.files.keys().any(|a| fs.files.keys().any(|b| b.starts_with(&format!("{a}/"))));
        if !clash {
            fs.create(&top);
            report.add("name_pairs", 1);
            check(report, &fs, &top, "main.t", "", "main.t", true);
            // And as the name of the root.
            if names.len() == 1 {
                // (With `./`, as a name may look like a flag.)
                check(report, &fs, &top, &names[0], "", &format!("./{}", names[0]), true);
            }
        }
        cases::remove(&top);
    });
    // Names of imports: given or inferred, all pairs.
    let specs = [("a.t", ""), ("b.t", ""), ("sub/a.t", ""), ("sub/a.t", "a"), ("a.t", "x"), ("b.t", "X"), ("sub/b.t", "b"), ("sub/b.t", "xY"), ("a.t", "x_y"), ("./a.t", ""), ("foo-bar.t", ""), ("b.t", "fooBar"), ("sub/../a.t", "y")];
    let mut jobs = vec![];
    for a in specs {
        for b in specs {
            for c in specs {
                jobs.push([a, b, c]);
            }
        }
    }
    par_map(driver::THREADS, &jobs, |_, three| {
        let top = cases::fresh_dir("aliases");
        let mut fs = Fs::default();
        for n in ["a.t", "b.t", "sub/a.t", "sub/b.t", "foo-bar.t"] {
            fs.files.insert(n.to_owned(), "struct A {}\n".into());
        }
        let text: String = three.iter().map(|(p, n)| format!("import '{p}'{}\n", if n.is_empty() { String::new() } else { format!(" as {n}") })).collect();
        fs.files.insert("main.t".into(), text);
        fs.create(&top);
        report.add("alias_triples", 1);
        check(report, &fs, &top, "main.t", "", "main.t", false);
        cases::remove(&top);
    });
}

pub fn c15(report: &Report) -> i32 {
    graphs(report);
    large(report);
    siblings(report);
    linked_roots(report);
    spellings(report);
    names(report);
    report.sample(format!("the tree of the check of spellings: {:?}, links {:?}", rich().files.keys().collect::<Vec<_>>(), rich().links));
    report.assume("the schema given on the command line is not itself a symbolic link");
    report.finish()
}
