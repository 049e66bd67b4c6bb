//! Checks of the generated Rust code: generate, compile together with the explorer, run.
use crate::driver::{self, THREADS};
use crate::families;
use crate::glue_rust;
use crate::report::Report;
use crate::ts_jobs;
use mc::model::Universe;
use mc::util::{clip, par_map};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

/// A universe with its generated code, compiled.
pub struct Built {
    pub dir: PathBuf,
    pub exe: PathBuf,
}

pub fn source_files(u: &Universe) -> Vec<(String, Vec<u8>)> {
    u.sources().into_iter().filter(|(_, s)| s.len() < 2_000_000).map(|(n, s)| (n, s.into_bytes())).collect()
}

/// Generate code for a universe. The schema is valid, so a failure is a violation.
pub fn generate(report: &Report, u: &Universe, dir: &Path, rust: bool, ts: bool) -> bool {
    driver::write_files(&dir.join("schemas"), &u.sources());
    std::fs::write(dir.join("universe.txt"), u.to_text()).unwrap();
    let root = format!("schemas/{}.t", u.files[0]);
    let mut args = vec!["generate", &root];
    if rust {
        args.extend(["--rust", "gen.rs"]);
    }
    if ts {
        args.extend(["--typescript", "gen.ts"]);
    }
    let ran = driver::run_typical(dir, &args);
    report.add("typical_runs", 1);
    if !ran.ok() {
        report.violation(&format!("no code is generated for a valid schema: {}", ran.show()), &source_files(u));
        return false;
    }
    true
}

pub fn build(report: &Report, u: &Universe, k: usize, counting: bool) -> Option<Built> {
    build_in(report, u, k, if counting { &["-Copt-level=0", "-Cinstrument-coverage"] } else { &["-Copt-level=0"] }, None, counting)
}

/// The same with settings for the compiler, and possibly as a crate of its own in some edition.
pub fn build_in(report: &Report, u: &Universe, k: usize, settings: &[&str], apart: Option<&str>, counting: bool) -> Option<Built> {
    let dir = driver::scratch().join(format!("u{k}"));
    std::fs::create_dir_all(&dir).unwrap();
    if !generate(report, u, &dir, true, false) {
        return None;
    }
    let mut glue = glue_rust::glue(u, counting);
    let mut ran = None;
    if let Some(edition) = apart {
        glue = glue.replacen("#[path = \"gen.rs\"] mod gen;", "extern crate generated as gen;", 1);
        let r = driver::run(
            driver::rustc().current_dir(&dir).args(["--edition", edition, "--crate-type", "rlib", "--crate-name", "generated", "-Awarnings", "-Cdebuginfo=0"]).args(settings).arg("gen.rs"),
            None,
            Duration::from_secs(600),
        );
        if !r.ok() {
            ran = Some(r);
        }
    }
    std::fs::write(dir.join("main.rs"), glue).unwrap();
    let lib = driver::build_dir().join("mc/debug");
    let ran = ran.unwrap_or_else(|| driver::run(
        driver::rustc()
            .current_dir(&dir)
            .args(if apart.is_some() { &["--extern", "generated=libgenerated.rlib"] as &[&str] } else { &[] })
            .args(["--edition", "2021", "-Cdebuginfo=0", "-Ccodegen-units=2", "--extern"])
            .arg(format!("mc={}", lib.join("libmc.rlib").display()))
            .arg("-L")
            .arg(format!("dependency={}", lib.join("deps").display()))
            .args(settings)
            .args(["-o", "child", "main.rs"]),
        None,
        Duration::from_secs(600),
    ));
    report.add("crates_compiled", 1);
    if !ran.ok() {
        report.violation(
            &format!("the generated Rust code (or the code using its documented interface) does not compile: {}", ran.show()),
            &source_files(u),
        );
        return None;
    }
    Some(Built { exe: dir.join("child"), dir })
}

/// Run the explorer over one universe and take over what it reports.
pub fn explore(report: &Report, u: &Universe, built: &Built, mode: &str) {
    let mut cmd = Command::new(&built.exe);
    cmd.env("LLVM_PROFILE_FILE", "/dev/null");
    cmd.arg(mode).arg(built.dir.join("universe.txt")).arg(if report.thorough { "thorough" } else { "quick" });
    let ran = driver::run(&mut cmd, None, Duration::from_secs(if report.thorough { 3000 } else { 600 }));
    let text = ran.out_text();
    let mut at = 0_usize;
    let mut done = false;
    for line in text.lines() {
        let mut w = line.split('\t');
        match w.next() {
            Some("AT") => at = w.next().unwrap().parse().unwrap(),
            Some("STAT") => report.add(w.next().unwrap(), w.next().unwrap().parse().unwrap()),
            Some("SAMPLE") => report.sample(w.next().unwrap().to_owned()),
            Some("KNOWN") => {
                let id = w.next().unwrap();
                let n = w.next().unwrap().parse().unwrap();
                report.finding(id, n, w.next().unwrap_or(""), &source_files(u));
            }
            Some("VIOL") => {
                let d: usize = w.next().unwrap().parse().unwrap();
                let what = w.next().unwrap_or("");
                report.violation(
                    &format!("{} in {}.t:\n{}\n{what}", u.decls[d].name, u.files[u.decls[d].file], clip(&u.decl_source(d), 1500)),
                    &source_files(u),
                );
            }
            Some("DONE") => done = true,
            _ => {}
        }
    }
    if !done {
        let d = &u.decls[at];
        report.violation(
            &format!(
                "the process using the generated code {} while exploring {}:\n{}\n{}",
                ran.crash().unwrap_or_else(|| format!("ended early ({:?})", ran.code)),
                d.name,
                clip(&u.decl_source(at), 1500),
                clip(&ran.err_text(), 1000)
            ),
            &source_files(u),
        );
    }
}

pub fn run_all(report: &Report, universes: &[Universe], mode: &str) {
    par_map(THREADS, universes, |k, u| {
        report.add("schemas", u.files.len() as u64);
        report.add("types", u.decls.len() as u64);
        if let Some(b) = build(report, u, k, mode == "cost") {
            explore(report, u, &b, mode);
            let _ = std::fs::remove_dir_all(&b.dir);
        }
    });
}

pub fn c01(report: &Report) -> i32 {
    run_all(report, &families::standard(report.thorough), "roundtrip");
    report.assume("values are explored over the boundary alphabets of values.rs, schemas over the families of families.rs");
    report.finish()
}

pub fn c02(report: &Report) -> i32 {
    run_all(report, &families::standard(report.thorough), "bytes");
    report.assume("the reference encoder (codec.rs) is written from the documented encoding");
    report.finish()
}

/// C24: the generated code in other crates, editions and profiles.
pub fn c24(report: &Report) -> i32 {
    let universes = if report.thorough { families::standard(false) } else { families::hostile(false) };
    const PLACES: &[(&str, &[&str], Option<&str>)] = &[
        ("a crate of edition 2024, without optimization or checks", &["-Copt-level=0", "-Cdebug-assertions=off"], Some("2024")),
        ("a release build", &["-Copt-level=2"], None),
        ("a crate of edition 2015, optimized, with checks of overflow", &["-Copt-level=3", "-Coverflow-checks=on"], Some("2015")),
        ("a crate of edition 2018, for size", &["-Copt-level=s", "-Cdebug-assertions=on"], Some("2018")),
    ];
    for (_, settings, apart) in &PLACES[..if report.thorough { PLACES.len() } else { 2 }] {
        par_map(THREADS, &universes, |k, u| {
            report.add("schemas", u.files.len() as u64);
            report.add("types", u.decls.len() as u64);
            if let Some(b) = build_in(report, u, k, settings, *apart, false) {
                for mode in ["bytes", "readers", "roundtrip"].into_iter().take(if report.thorough { 3 } else { 2 }) {
                    explore(report, u, &b, mode);
                }
                let _ = std::fs::remove_dir_all(&b.dir);
            }
        });
        report.add("arrangements", 1);
    }
    crate::names_jobs::elsewhere(report);
    report.note("arrangements_tried", &PLACES[..if report.thorough { PLACES.len() } else { 2 }].iter().map(|p| p.0).collect::<Vec<_>>().join("; "));
    report.assume("the compiler is rustc 1.85 for x86-64; for names, programs are only checked, as in C08, not run");
    report.finish()
}

/// For tuning: how many values there are.
pub fn count(report: &Report) -> i32 {
    for u in families::standard(report.thorough) {
        let vs = mc::values::Values::new(&u);
        for d in 0..u.decls.len() {
            let t = std::time::Instant::now();
            let n = vs.messages(d, 2, 2).len();
            println!("{n}\t{:?}\t{}", t.elapsed(), clip(&u.decl_source(d), 300).replace('\n', " "));
        }
    }
    0
}

pub fn c04(report: &Report) -> i32 {
    run_all(report, &families::standard(report.thorough), "readers");
    ts_jobs::c04(report);
    report.finish()
}

pub fn c05(report: &Report) -> i32 {
    run_all(report, &families::hostile(report.thorough), "hostile");
    ts_jobs::c05(report);
    report.finish()
}

pub fn c06(report: &Report) -> i32 {
    run_all(report, &families::versions(report.thorough), "evolve");
    ts_jobs::c06(report);
    report.finish()
}

pub fn c07(report: &Report) -> i32 {
    run_all(report, &families::hostile(report.thorough), "stream");
    report.finish()
}
