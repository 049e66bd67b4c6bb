//! What a check reports: the evidence file, violations with replay artefacts, known findings.
use crate::driver;
use mc::util::json_str;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

const MAX_VIOLATIONS: usize = 25;

/// Which counters (separated by `+`) make up the states, the transitions and the traces of a check.
const PLANS: &[(&str, &str, &str, &str)] = &[
    ("C01", "distinct", "decodes+conversions", "values"),
    ("C02", "distinct", "field_writes", "values"),
    ("C03", "ts_distinct", "ts_decodes", "ts_values"),
    ("C04", "distinct+ts_distinct", "messages+ts_messages", "accepted+rejected+ts_accepted+ts_rejected"),
    ("C05", "bases", "messages+ts_messages", "values+errors+ts_values+ts_errors"),
    ("C06", "messages+ts_messages", "readings+ts_readings", "distinct+ts_distinct"),
    ("C07", "distinct", "stream_calls", "schedules+faults"),
    ("C08", "types", "modules", "modules_compiled"),
    ("C09", "types", "modules", "modules_compiled"),
    ("C10", "cases", "runs+output_runs", "valid+invalid"),
    ("C11", "graphs+chains+layered", "runs+chains+layered", "valid+invalid"),
    ("C12", "cases+byte_strings+large_inputs", "runs+byte_strings+large_inputs", "valid+invalid"),
    ("C13", "cases", "runs", "files_compared"),
    ("C14", "renderings+trees", "runs+check_runs+format_runs", "formatted_twice+check_runs+format_runs"),
    ("C15", "graphs+spellings+name_pairs+alias_triples+root_spellings", "runs", "accepted+rejected"),
    ("C16", "scenarios+faults+kills+redirections+command_lines", "calls", "runs"),
    ("C17", "circumstances+layouts+circles+histories", "runs", "runs+layouts_checked"),
    ("C19", "types", "followed+broken", "followed+broken"),
    ("C20", "distinct+ts_distinct", "calls+nestings+ts_calls", "calls+nestings+ts_calls"),
    ("C21", "platforms+setups+faults+truncations", "runs", "runs"),
    ("C22", "distinct+ts_distinct", "measurements+ts_measurements", "series+ts_series"),
    ("C24", "distinct+types", "field_writes+messages+modules", "values+accepted+rejected+modules_compiled"),
    ("C23", "ts_distinct", "ts_calls", "ts_calls"),
    ("C18", "syntax+semantic+imports+many_files+cycles", "runs", "syntax+semantic+imports+many_files+cycles"),
];

pub struct Report {
    pub property: String,
    pub thorough: bool,
    seed: u64,
    start: Instant,
    inner: Mutex<Inner>,
    known_listed: Vec<(String, String)>,
}

#[derive(Default)]
struct Inner {
    counts: BTreeMap<String, u64>,
    notes: BTreeMap<String, String>,
    samples: Vec<String>,
    assumptions: Vec<String>,
    violations: usize,
    known: BTreeMap<String, (u64, String)>,
    exhaustive: bool,
}

impl Report {
    pub fn new(property: &str, thorough: bool) -> Report {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let text = std::fs::read_to_string(driver::verif().join("known_findings.txt")).unwrap_or_default();
        let known_listed = text
            .lines()
            .filter_map(|l| {
                let rest = l.strip_prefix("known: ")?;
                let mut w = rest.splitn(3, ' ');
                let prop = w.next()?.strip_prefix("property=")?;
                let id = w.next()?.strip_prefix("id=")?;
                (prop == property).then(|| (id.to_owned(), w.next().unwrap_or("").to_owned()))
            })
            .collect();
        let replays = driver::verif().join("replays").join(property);
        let _ = std::fs::remove_dir_all(replays);
        Report {
            property: property.to_owned(),
            thorough,
            seed,
            start: Instant::now(),
            inner: Mutex::new(Inner { exhaustive: true, ..Inner::default() }),
            known_listed,
        }
    }

    /// Count something which was explored on this run.
    pub fn add(&self, what: &str, n: u64) {
        *self.inner.lock().unwrap().counts.entry(what.to_owned()).or_default() += n;
    }
    pub fn note(&self, key: &str, text: &str) {
        self.inner.lock().unwrap().notes.insert(key.to_owned(), text.to_owned());
    }
    pub fn sample(&self, text: String) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(mc::util::clip(&text, 600));
        }
    }
    pub fn assume(&self, text: &str) {
        self.inner.lock().unwrap().assumptions.push(text.to_owned());
    }
    pub fn not_exhaustive(&self) {
        self.inner.lock().unwrap().exhaustive = false;
    }
    pub fn seconds(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Something which is broken. `files` are (name, contents) to keep for a replay.
    pub fn violation(&self, what: &str, files: &[(String, Vec<u8>)]) {
        let mut i = self.inner.lock().unwrap();
        i.violations += 1;
        if i.violations > MAX_VIOLATIONS {
            return;
        }
        let dir = driver::verif().join("replays").join(&self.property).join(format!("{}", i.violations));
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join("WHAT.txt"), format!("{what}\n"));
        for (name, contents) in files {
            let path = dir.join("files").join(name.trim_start_matches('/'));
            if let Some(parent) = path.parent() {
                let _ = std::fs::create_dir_all(parent);
            }
            let _ = std::fs::write(path, contents);
        }
        println!("{}", mc::util::clip(&what.replace('\n', "\n    "), 4000));
        println!("VIOLATION property={} replay={}", self.property, dir.display());
        // Enough is enough: code which is badly broken can make the rest take very long.
        if i.violations == MAX_VIOLATIONS {
            println!("stopping here, after {MAX_VIOLATIONS} violations");
            i.exhaustive = false;
            let status = self.write_evidence(&i);
            // What other threads are doing fails now; that must not end the process with another status.
            std::panic::set_hook(Box::new(|_| loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }));
            driver::kill_all();
            driver::remove_scratch();
            std::process::exit(status);
        }
    }

    /// A failure which is one of the listed findings, or else a violation.
    pub fn finding(&self, id: &str, count: u64, what: &str, files: &[(String, Vec<u8>)]) {
        if self.known_listed.iter().any(|(k, _)| k == id) {
            let mut i = self.inner.lock().unwrap();
            let e = i.known.entry(id.to_owned()).or_insert_with(|| (0, what.to_owned()));
            e.0 += count;
        } else {
            self.violation(&format!("[{id}, which is not a listed finding] {what}"), files);
        }
    }

    pub fn count(&self, what: &str) -> u64 {
        self.inner.lock().unwrap().counts.get(what).copied().unwrap_or(0)
    }
    pub fn violations(&self) -> usize {
        self.inner.lock().unwrap().violations
    }

    /// Write the evidence and return the exit status.
    pub fn finish(&self) -> i32 {
        self.write_evidence(&self.inner.lock().unwrap())
    }
    fn write_evidence(&self, i: &Inner) -> i32 {
        let level = "model_checking";
        let (_, states, transitions, traces) = PLANS.iter().find(|p| p.0 == self.property).expect("a plan");
        for (id, text) in &self.known_listed {
            match i.known.get(id) {
                Some((n, what)) => {
                    println!("KNOWN-FINDING: property={} {id}: {text} (seen {n} times, e.g. {})", self.property, mc::util::clip(&what.replace('\n', " "), 300));
                }
                None => println!("note: the listed finding {id} of {} did not occur on this run", self.property),
            }
        }
        let sum = |names: &str| names.split('+').map(|n| i.counts.get(n).copied().unwrap_or(0)).sum::<u64>();
        let mut s = String::from("{\n");
        let _ = writeln!(s, " \"property\": {},", json_str(&self.property));
        let _ = writeln!(s, " \"tier\": \"{}\",", if self.thorough { "thorough" } else { "quick" });
        let _ = writeln!(s, " \"seed\": {},", self.seed);
        let _ = writeln!(s, " \"level\": {},", json_str(level));
        s.push_str(" \"coverage\": {\n");
        let _ = writeln!(s, "  \"states\": {},", sum(states));
        let _ = writeln!(s, "  \"transitions\": {},", sum(transitions));
        let _ = writeln!(s, "  \"traces_validated_against_impl\": {},", sum(traces));
        let _ = writeln!(s, "  \"states_are\": {}, \"transitions_are\": {}, \"traces_are\": {},", json_str(states), json_str(transitions), json_str(traces));
        for (k, v) in &i.counts {
            let _ = writeln!(s, "  {}: {v},", json_str(&format!("n_{k}")));
        }
        for (k, v) in &i.notes {
            let _ = writeln!(s, "  {}: {},", json_str(k), json_str(v));
        }
        let _ = writeln!(s, "  \"exhaustive\": {},", i.exhaustive);
        let _ = writeln!(s, "  \"known_findings\": [{}],", i.known.iter().map(|(k, (n, w))| json_str(&format!("{k} x{n}: {}", mc::util::clip(w, 300)))).collect::<Vec<_>>().join(", "));
        let _ = writeln!(s, "  \"samples\": [{}]", i.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",\n   "));
        s.push_str(" },\n");
        let _ = writeln!(s, " \"assumptions\": [{}],", i.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
        let _ = writeln!(s, " \"wall_s\": {:.2},", self.start.elapsed().as_secs_f64());
        let _ = writeln!(s, " \"violations\": {}", i.violations);
        s.push_str("}\n");
        let dir = driver::verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.property)), s).unwrap();
        println!(
            "{}: {} in {:.1} s; {} states, {} transitions, {} traces; {} violations; counts: {}",
            self.property,
            if i.violations == 0 { "held on everything explored" } else { "BROKEN" },
            self.start.elapsed().as_secs_f64(),
            sum(states),
            sum(transitions),
            sum(traces),
            i.violations,
            i.counts.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        i32::from(i.violations > 0)
    }
}

pub fn file(name: &str, contents: impl AsRef<[u8]>) -> (String, Vec<u8>) {
    (name.to_owned(), contents.as_ref().to_vec())
}

pub fn tmp_path(report: &Report, name: &str) -> PathBuf {
    driver::scratch().join(&report.property).join(name)
}
