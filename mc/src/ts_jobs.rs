//! Checks of the generated TypeScript code: generate, strip the types, run in Node.
use crate::driver::{self, Ran, THREADS};
use crate::families;
use crate::report::Report;
use crate::rust_jobs::{self, source_files};
use mc::cost::Item;
use mc::codec::{self, Bad, UnitArrays, Val};
use mc::explore::migrate_message;
use mc::messages;
use mc::model::{Ty, Universe};
use mc::names;
use mc::plain::{self, Cursor};
use mc::util::{clip, fnv, hex_short, json_str, par_map};
use mc::values::{self, Values};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Duration;

pub fn esbuild(dir: &Path, from: &str, to: &str) -> Ran {
    let mut c = Command::new(Path::new(driver::NODE_MODULES).join(".bin/esbuild"));
    c.current_dir(dir).args([from, &format!("--outfile={to}"), "--format=esm", "--target=es2022", "--log-level=error"]);
    driver::run(&mut c, None, Duration::from_secs(300))
}

fn ty_json(ty: &Ty) -> String {
    match ty {
        Ty::Unit => "\"n\"".into(),
        Ty::F64 => "\"f\"".into(),
        Ty::U64 => "\"U\"".into(),
        Ty::S64 => "\"S\"".into(),
        Ty::Bool => "\"B\"".into(),
        Ty::Bytes => "\"b\"".into(),
        Ty::Str => "\"s\"".into(),
        Ty::Arr(t) => format!("{{\"a\":{}}}", ty_json(t)),
        Ty::Ref(d) => format!("{{\"r\":{d}}}"),
    }
}

fn schema_json(u: &Universe) -> String {
    let mut s = String::from("[");
    for (i, d) in u.decls.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let mut path: Vec<String> = u.ts_module(d.file).split('.').map(json_str).collect();
        path.push(json_str(&names::ts_type(&d.name)));
        let fields: Vec<String> =
            d.fields.iter().map(|f| format!("{{\"name\":{},\"ty\":{}}}", json_str(&names::ts_field(&f.name)), ty_json(&f.ty))).collect();
        let _ = write!(s, "{{\"path\":[{}],\"choice\":{},\"fields\":[{}]}}\n", path.join(","), d.choice, fields.join(","));
    }
    s.push(']');
    s
}

/// What to do with the generated code.
#[derive(Clone)]
pub enum Ask {
    Encode(Val),
    /// In a buffer of its own.
    Decode(Vec<u8>),
    /// Also in the middle of other bytes.
    DecodeInside(Vec<u8>),
    /// Also in every kind of buffer.
    DecodeKinds(Vec<u8>),
    /// Repeatedly, with arguments and results changed in between.
    EncodeApart(Val),
    DecodeApart(Vec<u8>),
    /// For a series of measurements; once or (to see the time) repeatedly.
    Cost(usize, bool, Item),
}

#[derive(Debug)]
pub enum Answer {
    Bytes(usize, Vec<u8>),
    Val(Val),
    Err(String),
    /// The blocks of code which were executed, and nanoseconds.
    Cost(u64, u64),
    Thrown(String),
    Shape(String),
}

impl Answer {
    pub fn show(&self) -> String {
        match self {
            Answer::Bytes(n, b) => format!("{} (size {n})", hex_short(b)),
            Answer::Val(v) => format!("value {}", clip(&v.show(), 300)),
            Answer::Err(e) => format!("error {e}"),
            Answer::Cost(b, n) => format!("{b} blocks, {n} ns"),
            Answer::Thrown(e) => format!("EXCEPTION {e}"),
            Answer::Shape(e) => format!("a value which does not have its type: {e}"),
        }
    }
}

/// Judges an answer; the last argument says how the outcome depended on the surroundings.
type Judge<'a> = dyn FnMut(&mut Found, usize, &Ask, Answer, &str) + 'a;

/// What was found in a universe.
pub struct Found<'a> {
    report: &'a Report,
    u: &'a Universe,
    counts: BTreeMap<&'static str, u64>,
    per_decl: BTreeMap<usize, usize>,
    distinct: HashSet<u64>,
    known: BTreeMap<&'static str, (u64, String)>,
    samples: usize,
}

impl Found<'_> {
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_default() += n;
    }
    pub fn outcome(&mut self, b: &[u8]) {
        self.distinct.insert(fnv(b));
    }
    pub fn violation(&mut self, d: usize, what: &str) {
        let n = self.per_decl.entry(d).or_default();
        *n += 1;
        if *n <= 3 {
            let u = self.u;
            self.report.violation(
                &format!("TypeScript: {} in {}.t:\n{}\n{what}", u.decls[d].name, u.files[u.decls[d].file], clip(&u.decl_source(d), 1500)),
                &source_files(u),
            );
        }
    }
    pub fn known(&mut self, id: &'static str, example: impl FnOnce() -> String) {
        self.known.entry(id).or_insert_with(|| (0, example())).0 += 1;
    }
    fn sample(&mut self, text: impl FnOnce() -> String) {
        self.samples += 1;
        if self.samples % 2003 == 77 {
            self.report.sample(format!("TypeScript: {}", text()));
        }
    }
}

pub struct Ts<'a> {
    pub dir: PathBuf,
    pending: Vec<(usize, Ask)>,
    requests: Vec<u8>,
    /// The file which is run, and where.
    pub place: (&'static str, &'static str),
    pub found: Found<'a>,
}

impl<'a> Ts<'a> {
    /// Generate the code of a universe.
    pub fn build(report: &'a Report, u: &'a Universe, k: usize) -> Option<Ts<'a>> {
        let dir = driver::scratch().join(format!("t{k}"));
        std::fs::create_dir_all(&dir).unwrap();
        if !rust_jobs::generate(report, u, &dir, false, true) {
            return None;
        }
        let ran = esbuild(&dir, "gen.ts", "gen.mjs");
        if !ran.ok() {
            report.violation(&format!("the generated TypeScript code is no valid syntax: {}", ran.show()), &source_files(u));
            return None;
        }
        std::fs::write(dir.join("schema.json"), schema_json(u)).unwrap();
        let found = Found {
            report,
            u,
            counts: BTreeMap::new(),
            per_decl: BTreeMap::new(),
            distinct: HashSet::new(),
            known: BTreeMap::new(),
            samples: 0,
        };
        Some(Ts { dir, pending: vec![], requests: vec![], place: ("gen.mjs", ""), found })
    }

    pub fn ask(&mut self, d: usize, ask: Ask, judge: &mut Judge) {
        let (op, bytes) = match &ask {
            Ask::Encode(_) => (1_u8, None),
            Ask::Decode(b) => (2, Some(b)),
            Ask::DecodeInside(b) => (3, Some(b)),
            Ask::DecodeKinds(b) => (4, Some(b)),
            Ask::EncodeApart(_) => (5, None),
            Ask::DecodeApart(b) => (6, Some(b)),
            Ask::Cost(_, often, Item::Enc(_)) => (if *often { 9 } else { 7 }, None),
            Ask::Cost(_, often, Item::Dec(b)) => (if *often { 10 } else { 8 }, Some(b)),
        };
        self.requests.push(op);
        self.requests.extend_from_slice(&(d as u32).to_le_bytes());
        if let Some(b) = bytes {
            plain::put_bytes(b, &mut self.requests);
        }
        if let Ask::Encode(v) | Ask::EncodeApart(v) | Ask::Cost(_, _, Item::Enc(v)) = &ask {
            plain::put(self.found.u, &Ty::Ref(d), v, &mut self.requests);
        }
        self.pending.push((d, ask));
        if self.requests.len() > 48 << 20 || self.pending.len() > 400_000 {
            self.flush(judge);
        }
    }

    pub fn flush(&mut self, judge: &mut Judge) {
        if self.pending.is_empty() {
            return;
        }
        std::fs::write(self.dir.join("requests"), &self.requests).unwrap();
        self.requests.clear();
        let pending = std::mem::take(&mut self.pending);
        let mut c = Command::new("node");
        c.current_dir(&self.dir)
            .args(["--max-old-space-size=3000"])
            .arg(driver::verif().join("mc/js/runner.mjs"))
            .args([self.place.0, "schema.json", "requests", "responses"])
            .env("MC_REALM", self.place.1)
            .env_remove("NODE_OPTIONS");
        let ran = driver::run(&mut c, None, Duration::from_secs(400));
        self.found.add("node_runs", 1);
        let responses = std::fs::read(self.dir.join("responses")).unwrap_or_default();
        if !ran.ok() {
            // Find out which request does it by asking for fewer.
            if pending.len() == 1 {
                let (d, ask) = &pending[0];
                let what = match ask {
                    Ask::Encode(v) | Ask::EncodeApart(v) | Ask::Cost(_, _, Item::Enc(v)) => format!("serializing {}", v.show()),
                    Ask::Decode(b) | Ask::DecodeInside(b) | Ask::DecodeKinds(b) | Ask::DecodeApart(b) | Ask::Cost(_, _, Item::Dec(b)) => format!("decoding {}", hex_short(b)),
                };
                self.found.violation(*d, &format!("{what} ends the process or never ends: {}", ran.show()));
                return;
            }
            self.found.violation(
                pending[0].0,
                &format!("the process using the generated code fails (on one of {} requests): {}", pending.len(), ran.show()),
            );
            return;
        }
        let mut c = Cursor { bytes: &responses, at: 0 };
        for (d, ask) in pending {
            let answer = match c.u8() {
                0 if matches!(ask, Ask::Cost(..)) => {
                    let text = c.text();
                    let (b, n) = text.split_once(' ').unwrap();
                    Answer::Cost(b.parse().unwrap(), n.parse().unwrap())
                }
                0 if matches!(ask, Ask::Encode(_) | Ask::EncodeApart(_)) => {
                    let n = c.u32() as usize;
                    Answer::Bytes(n, c.bytes())
                }
                0 => Answer::Val(c.val(self.found.u, &Ty::Ref(d))),
                1 => Answer::Err(c.text()),
                2 => Answer::Thrown(c.text()),
                _ => Answer::Shape(c.text()),
            };
            let around = if matches!(ask, Ask::Encode(_) | Ask::Decode(_) | Ask::Cost(..)) { String::new() } else { c.text() };
            judge(&mut self.found, d, &ask, answer, &around);
        }
        assert!(c.done());
    }

    pub fn finish(self) {
        let f = self.found;
        for (k, n) in &f.counts {
            f.report.add(&format!("ts_{k}"), *n);
        }
        f.report.add("ts_distinct", f.distinct.len() as u64);
        for (id, (n, ex)) in &f.known {
            f.report.finding(id, *n, ex, &source_files(f.u));
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// All not-a-number values are the same in JavaScript.
pub fn nan(v: Val) -> Val {
    map_val(v, &mut |v| match v {
        Val::F64(b) if f64::from_bits(b).is_nan() => Val::F64(f64::NAN.to_bits()),
        v => v,
    })
}

/// What a `TextDecoder` which is not told otherwise does with a leading byte order mark.
pub fn without_bom(v: Val) -> Val {
    map_val(v, &mut |v| match v {
        Val::Str(s) => Val::Str(s.strip_prefix('\u{feff}').map(str::to_owned).unwrap_or(s)),
        v => v,
    })
}

fn map_val(v: Val, f: &mut dyn FnMut(Val) -> Val) -> Val {
    let v = match v {
        Val::Arr(a) => Val::Arr(a.into_iter().map(|v| map_val(v, f)).collect()),
        Val::Struct(a) => Val::Struct(a.into_iter().map(|v| v.map(|v| map_val(v, f))).collect()),
        Val::Choice(p, v, fb) => Val::Choice(p, Box::new(map_val(*v, f)), fb.map(|fb| Box::new(map_val(*fb, f)))),
        v => v,
    };
    f(v)
}

fn message_of(ask: &Ask) -> &[u8] {
    match ask {
        Ask::Encode(_) | Ask::EncodeApart(_) | Ask::Cost(_, _, Item::Enc(_)) => &[],
        Ask::Decode(b) | Ask::DecodeInside(b) | Ask::DecodeKinds(b) | Ask::DecodeApart(b) | Ask::Cost(_, _, Item::Dec(b)) => b,
    }
}

/// Explore every universe with a function.
pub fn run_all(report: &Report, universes: &[Universe], f: &(dyn Fn(&mut Ts, &Universe, usize, &mut Judge) + Sync), judge: &(dyn Fn(&Universe, &mut Found, usize, &Ask, Answer, &str) + Sync)) {
    par_map(THREADS, universes, |k, u| {
        report.add("ts_schemas", u.files.len() as u64);
        report.add("ts_types", u.decls.len() as u64);
        if let Some(mut ts) = Ts::build(report, u, k) {
            let mut j = |found: &mut Found, d: usize, ask: &Ask, answer: Answer, around: &str| judge(u, found, d, ask, answer, around);
            for d in 0..u.decls.len() {
                f(&mut ts, u, d, &mut j);
            }
            ts.flush(&mut j);
            ts.finish();
        }
    });
}

pub fn values(u: &Universe, d: usize, thorough: bool) -> Vec<Val> {
    let mut vs = Values::new(u);
    if thorough {
        vs.product_limit = 40_000;
    }
    let mut out = vs.messages(d, 2, if thorough { 3 } else { 2 });
    if u.decls[d].name.starts_with("Huge") {
        out.extend(vs.huge_messages(d));
    }
    // Strings with a byte order mark, which `TextDecoder` treats specially.
    let extra: Vec<Val> = out
        .iter()
        .filter_map(|v| {
            let mut changed = false;
            let w = map_val(v.clone(), &mut |v| match v {
                Val::Str(s) if s == "a" || s == "1234567" || s.starts_with('é') => {
                    changed = true;
                    Val::Str(format!("\u{feff}{s}"))
                }
                v => v,
            });
            changed.then_some(w)
        })
        .collect();
    out.extend(extra);
    values::dedup(out)
}

/// C03.
pub fn c03(report: &Report) -> i32 {
    let thorough = report.thorough;
    run_all(
        report,
        &families::standard(thorough),
        &|ts, u, d, judge| {
            let units = u.decls[d].fields.iter().any(|f| codec::has_unit_array(u, &f.ty));
            for (i, v) in values(u, d, thorough).into_iter().enumerate() {
                let bytes = codec::encode(u, d, &v, UnitArrays::Documented);
                if units {
                    // What both languages write.
                    ts.ask(d, Ask::Decode(codec::encode(u, d, &v, UnitArrays::SizePrefixed)), judge);
                }
                let kinds = i % 16 == 3 && bytes.len() < 3000;
                ts.ask(d, if kinds { Ask::DecodeKinds(bytes) } else { Ask::Decode(bytes) }, judge);
                ts.ask(d, Ask::Encode(v), judge);
            }
        },
        &|u, found, d, ask, answer, around| {
            if let Ask::Encode(v) = ask {
                found.add("values", 1);
                let expected = codec::encode(u, d, v, UnitArrays::Documented);
                match answer {
                    Answer::Bytes(size, got) => {
                        if size != got.len() {
                            found.violation(d, &format!("size() is {size} but {} bytes are written for {}", got.len(), v.show()));
                        }
                        found.outcome(&got);
                        if got != expected {
                            if got == codec::encode(u, d, v, UnitArrays::SizePrefixed) {
                                found.known("D23", || {
                                    format!("{} = {} is written as {} instead of {}", u.decls[d].name, v.show(), hex_short(&got), hex_short(&expected))
                                });
                            } else {
                                found.violation(d, &format!("{} is written as {} instead of {}", v.show(), hex_short(&got), hex_short(&expected)));
                            }
                        }
                        found.sample(|| format!("{} {} -> {}", u.decls[d].name, v.show(), hex_short(&got)));
                    }
                    other => found.violation(d, &format!("serializing {} gives {}", v.show(), other.show())),
                }
                return;
            }
            let m = message_of(ask);
            found.add("decodes", 1);
            if !around.is_empty() {
                found.violation(d, &format!("decoding {} depends on the kind of buffer: {around}", hex_short(m)));
            }
            let expected = codec::get_message(u, d, m).map(nan);
            match (expected, answer) {
                (Ok(e), Answer::Val(g)) => {
                    let g = nan(g);
                    if e != g {
                        if without_bom(e.clone()) == g {
                            found.known("D4", || format!("{}: {} means {} but is read as {}", u.decls[d].name, hex_short(m), e.show(), g.show()));
                        } else {
                            found.violation(d, &format!("the message {} means {} but is read as {}", hex_short(m), e.show(), g.show()));
                        }
                    }
                }
                (Ok(e), other) => found.violation(d, &format!("the message {} means {} but is read as {}", hex_short(m), e.show(), other.show())),
                (Err(e), _) => found.violation(d, &format!("the reference does not understand {} ({e:?})", hex_short(m))),
            }
        },
    );
    report.assume("the reference encoder (codec.rs) is written from the documented encoding; the same one is compared with the generated Rust code in C02");
    report.finish()
}

/// The part of C04 for TypeScript.
pub fn c04(report: &Report) {
    let thorough = report.thorough;
    run_all(
        report,
        &families::standard(thorough),
        &|ts, u, d, judge| {
            messages::well_formed(u, d, thorough, &mut |m| ts.ask(d, Ask::Decode(m.to_vec()), judge));
        },
        &|u, found, d, ask, answer, _| {
            let m = message_of(ask);
            found.add("messages", 1);
            let expected = codec::get_message(u, d, m).map(nan);
            let answer = if let Answer::Val(v) = answer { Answer::Val(nan(v)) } else { answer };
            if let Answer::Val(v) = &answer {
                found.outcome(v.show().as_bytes());
            }
            match (&expected, &answer) {
                (Ok(e), Answer::Val(g)) if e == g => found.add("accepted", 1),
                (Err(Bad::Missing), Answer::Err(_)) => found.add("rejected", 1),
                (Err(Bad::Malformed(_) | Bad::Overrun), _) => found.add("unspecified", 1),
                (Ok(e), _) => found.violation(d, &format!("the message {} means {} but is read as {}", hex_short(m), e.show(), answer.show())),
                (Err(_), _) => found.violation(d, &format!("the message {} lacks a required field but is read as {}", hex_short(m), answer.show())),
            }
            found.sample(|| format!("{}: {} -> {}", u.decls[d].name, hex_short(m), answer.show()));
        },
    );
}

/// How much memory a value takes at least, without arrays of units.
fn weight(v: &Val) -> usize {
    match v {
        Val::Bytes(b) => 8 + b.len(),
        Val::Str(s) => 8 + s.len(),
        Val::Units(_) => 8,
        Val::Arr(a) => 8 + a.iter().map(weight).sum::<usize>(),
        Val::Struct(f) => 8 + f.iter().map(|f| 8 + f.as_ref().map_or(0, weight)).sum::<usize>(),
        Val::Choice(_, v, fb) => 8 + weight(v) + fb.as_ref().map_or(0, |f| weight(f)),
        _ => 8,
    }
}

/// The part of C05 for TypeScript.
pub fn c05(report: &Report) {
    let thorough = report.thorough;
    run_all(
        report,
        &families::hostile(thorough),
        &|ts, u, d, judge| {
            let mut seen = HashSet::new();
            let mut ms: Vec<Vec<u8>> = vec![];
            let mut units = 0;
            let bounds = if thorough { messages::Hostile { len: 4, bases: 120, double: 6 } } else { messages::Hostile { len: 3, bases: 20, double: 4 } };
            let mut each = |m: &[u8]| {
                if seen.insert(fnv(m)) {
                    if mc::explore::expect(u, d, m) == mc::explore::Expect::Units {
                        units += 1;
                    } else {
                        ms.push(m.to_vec());
                    }
                }
            };
            messages::hostile(u, d, bounds, &mut each);
            messages::long(u, d, &mut each);
            ts.found.add("skipped_units", units);
            // One chain of very many fallbacks for every schema.
            if (0..d).all(|e| messages::chain(u, e, 1).is_none()) {
                ms.extend(messages::chain(u, d, mc::explore::DEEPEST));
            }
            for m in ms {
                ts.ask(d, Ask::DecodeInside(m), judge);
            }
        },
        &|u, found, d, ask, answer, around| {
            let m = message_of(ask);
            found.add("messages", 1);
            if m.len() >= mc::explore::DEEPEST {
                // It depends on the stack whether there is a value, but then it is an error.
                match answer {
                    Answer::Val(_) | Answer::Err(_) => found.add("deepest_chains", 1),
                    other => found.violation(d, &format!("decoding {} fallbacks gives {}", mc::explore::DEEPEST, other.show())),
                }
                return;
            }
            let expected = codec::get_message(u, d, m).map(nan);
            if !around.is_empty() {
                // Fields which are longer than what contains them make it read what follows (D3).
                if matches!(expected, Err(Bad::Overrun | Bad::Malformed(_))) {
                    found.known("D3", || format!("{}: {} in {around}", u.decls[d].name, hex_short(m)));
                } else {
                    found.violation(d, &format!("decoding {} depends on the bytes around it: {around}", hex_short(m)));
                }
            }
            match answer {
                Answer::Val(v) => {
                    let v = nan(v);
                    found.add("values", 1);
                    match &expected {
                        Ok(e) if *e != v && without_bom(e.clone()) != v => {
                            found.violation(d, &format!("the well-formed message {} means {} but is read as {}", hex_short(m), e.show(), v.show()));
                        }
                        Err(Bad::Missing) => {
                            found.violation(d, &format!("the message {} lacks a required field but is read as {}", hex_short(m), v.show()));
                        }
                        _ => {}
                    }
                    let bound = 2048 + 256 * m.len();
                    if weight(&v) > bound {
                        found.violation(d, &format!("decoding {} ({} bytes) gives a value of {} bytes", hex_short(m), m.len(), weight(&v)));
                    }
                }
                Answer::Err(e) => {
                    found.add("errors", 1);
                    if let Ok(v) = &expected {
                        found.violation(d, &format!("the well-formed message {} means {} but is rejected: {e}", hex_short(m), v.show()));
                    }
                }
                other => found.violation(d, &format!("decoding {} gives {}", hex_short(m), other.show())),
            }
        },
    );
}

/// The part of C06 for TypeScript.
pub fn c06(report: &Report) {
    let thorough = report.thorough;
    run_all(
        report,
        &families::versions(thorough),
        &|ts, u, d, judge| {
            let readers: Vec<usize> = u.pairs.iter().filter(|(a, _)| *a == d).map(|(_, b)| *b).collect();
            if readers.is_empty() {
                return;
            }
            let vs = Values::new(u);
            let list = vs.messages(d, 1, 3);
            for v in list {
                ts.ask(d, Ask::Encode(v.clone()), judge);
                for b in &readers {
                    // The answer is judged by what the value should become.
                    let bytes = codec::encode(u, d, &v, UnitArrays::SizePrefixed);
                    let migrated = migrate_message(u, d, *b, &v);
                    if migrated.as_ref() != codec::get_message(u, *b, &bytes).ok().as_ref() {
                        ts.found.violation(*b, &format!("{} for {} should be readable as {migrated:?}", hex_short(&bytes), v.show()));
                    }
                    ts.ask(*b, Ask::Decode(bytes), judge);
                }
            }
        },
        &|u, found, d, ask, answer, _| {
            if let Ask::Encode(v) = ask {
                found.add("messages", 1);
                let expected = codec::encode(u, d, v, UnitArrays::SizePrefixed);
                match answer {
                    Answer::Bytes(_, b) if b == expected => {}
                    other => found.violation(d, &format!("serializing {} gives {} instead of {}", v.show(), other.show(), hex_short(&expected))),
                }
                return;
            }
            let m = message_of(ask);
            found.add("readings", 1);
            match (codec::get_message(u, d, m).map(nan), answer) {
                (Ok(e), Answer::Val(g)) if e == nan(g.clone()) => found.outcome(&[m, &d.to_le_bytes()[..]].concat()),
                (e, other) => found.violation(
                    d,
                    &format!("the message {} from a compatible type should be read as {e:?} but is read as {}", hex_short(m), other.show()),
                ),
            }
        },
    );
}
