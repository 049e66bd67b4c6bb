//! C23: the generated TypeScript code does the same wherever it runs.
use crate::calls_jobs::{right, shown};
use crate::driver::{self, Ran};
use crate::families;
use crate::report::Report;
use crate::rust_jobs::source_files;
use crate::ts_jobs::{self, Ask, Ts};
use mc::codec::{self, UnitArrays};
use std::collections::HashMap;
use std::path::Path;
use std::process::Command;
use std::sync::Mutex;
use std::time::Duration;

/// How the code is made ready, and where it runs.
struct Place {
    what: &'static str,
    tool: &'static str,
    args: &'static [&'static str],
    file: &'static str,
    realm: &'static str,
}

const PLACES: &[Place] = &[
    Place {
        what: "a realm with nothing but the language and the encoding of text, without dynamic code",
        tool: "esbuild",
        args: &["gen.ts", "--outfile=page.js", "--platform=neutral", "--format=iife", "--global-name=gen", "--target=es2022"],
        file: "page.js",
        realm: "vm",
    },
    Place {
        what: "a realm whose built-in objects are frozen",
        tool: "esbuild",
        args: &["gen.ts", "--outfile=frozen.js", "--platform=neutral", "--format=iife", "--global-name=gen", "--target=es2020"],
        file: "frozen.js",
        realm: "frozen",
    },
    Place {
        what: "a realm with nothing but the language and the encoding of text, minified",
        tool: "esbuild",
        args: &["gen.ts", "--outfile=mini.js", "--bundle", "--minify", "--platform=neutral", "--format=iife", "--global-name=gen", "--target=es2020"],
        file: "mini.js",
        realm: "vm",
    },
    Place {
        what: "Node, bundled and minified as a module",
        tool: "esbuild",
        args: &["gen.ts", "--outfile=mini.mjs", "--bundle", "--minify", "--platform=neutral", "--format=esm", "--target=es2020"],
        file: "mini.mjs",
        realm: "",
    },
    Place {
        what: "Node, as a CommonJS module made by tsc",
        tool: "tsc",
        args: &["gen.ts", "--outDir", "common", "--target", "es2020", "--module", "commonjs", "--noCheck", "--lib", "es2020,dom"],
        file: "common/gen.js",
        realm: "commonjs",
    },
];

fn prepare(dir: &Path, p: &Place) -> Ran {
    let mut c = Command::new(Path::new(driver::NODE_MODULES).join(".bin").join(p.tool));
    c.current_dir(dir).args(p.args);
    driver::run(&mut c, None, Duration::from_secs(300))
}

pub fn c23(report: &Report) -> i32 {
    let thorough = report.thorough;
    let mut universes = if thorough { families::standard(false) } else { families::hostile(false) };
    universes.extend(families::pack(&families::wide(&[70]), 20));
    let now: Mutex<HashMap<usize, &'static str>> = Mutex::new(HashMap::new());
    let limit = if thorough { 2000 } else { 200 };
    ts_jobs::run_all(
        report,
        &universes,
        &|ts: &mut Ts, u, d, judge| {
            if d > 0 {
                return;
            }
            for p in PLACES {
                let ran = prepare(&ts.dir, p);
                if !ran.ok() {
                    report.violation(&format!("the generated TypeScript code cannot be prepared for {}: {}", p.what, ran.show()), &source_files(u));
                    continue;
                }
                report.add("preparations", 1);
                ts.place = (p.file, p.realm);
                now.lock().unwrap().insert(std::ptr::from_ref(u) as usize, p.what);
                for e in 0..u.decls.len() {
                    let values = ts_jobs::values(u, e, false);
                    let step = values.len().div_ceil(limit).max(1);
                    for v in values.into_iter().step_by(step) {
                        let m = codec::encode(u, e, &v, UnitArrays::SizePrefixed);
                        if m.len() > 100_000 {
                            continue;
                        }
                        ts.ask(e, Ask::Encode(v), judge);
                        if !m.is_empty() {
                            ts.ask(e, Ask::Decode(m[..m.len() - 1].to_vec()), judge);
                            ts.ask(e, Ask::Decode(m[m.len() / 2..].to_vec()), judge);
                        }
                        ts.ask(e, Ask::Decode(m), judge);
                    }
                }
                ts.flush(judge);
            }
        },
        &|u, found, d, ask, answer, _| {
            found.add("calls", 1);
            let text = answer.show();
            found.outcome(text.as_bytes());
            if !right(u, d, ask, &answer) {
                let place = now.lock().unwrap()[&(std::ptr::from_ref(u) as usize)];
                found.violation(d, &format!("{} gives {text} in {place}", shown(ask)));
            }
        },
    );
    report.assume("browsers are represented by realms of V8 without Node's globals; the encoder and the decoder of text are those of Node");
    report.finish()
}
