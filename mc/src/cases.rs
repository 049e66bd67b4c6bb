//! Running `typical` on many independent schemas ("cases") at once: a root schema imports the main
//! schema of every case. What the tool says about each case is read from its error messages, which
//! name files (and, for cycles, types). Anything surprising is repeated with the case on its own.
use crate::driver::{self, run_typical, Ran};
use crate::report::{file, Report};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Debug)]
pub struct Case {
    /// Paths from the directory of the case, and contents. The first one is the main schema.
    pub files: Vec<(String, String)>,
    /// Whether the reference model accepts it, and why.
    pub valid: bool,
    pub why: String,
}

impl Case {
    pub fn one(text: &str) -> Case {
        Case::tree(vec![("main.t".into(), text.to_owned())])
    }
    pub fn tree(files: Vec<(String, String)>) -> Case {
        let tree = files.iter().cloned().collect();
        let j = mc::lang::judge(&tree, &files[0].0);
        Case { valid: j.ok(), why: j.show(), files }
    }
    pub fn show(&self) -> String {
        self.files.iter().map(|(n, t)| format!("{n}: {t:?}")).collect::<Vec<_>>().join(", ")
    }
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Accepted,
    /// Rejected with these errors.
    Rejected(Vec<String>),
    Crashed(String),
}

impl Verdict {
    pub fn accepted(&self) -> bool {
        matches!(self, Verdict::Accepted)
    }
}

static NEXT: AtomicUsize = AtomicUsize::new(0);

pub fn fresh_dir(what: &str) -> PathBuf {
    let dir = driver::scratch_in_memory().join(format!("{what}{}", NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

pub fn remove(dir: &Path) {
    if std::env::var("MC_KEEP").map_or(true, |v| v.is_empty()) && dir.starts_with(driver::scratch_in_memory()) {
        let _ = std::fs::remove_dir_all(dir);
    }
}

/// The errors in what the tool printed.
pub fn errors(stderr: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for line in stderr.split('\n') {
        if line.starts_with("[Error] ") {
            out.push(line.to_owned());
        } else if let Some(last) = out.last_mut() {
            last.push('\n');
            last.push_str(line);
        }
    }
    out
}

/// The number of the case which an error is about.
fn owner(error: &str) -> Option<usize> {
    let at = match error.strip_prefix("[Error] [`k") {
        Some(rest) => rest,
        None => error.split("`k").nth(1)?,
    };
    let digits: String = at.chars().take_while(char::is_ascii_digit).collect();
    digits.parse().ok()
}

pub fn write_case(dir: &Path, case: &Case) {
    driver::write_files(dir, &case.files);
}

/// One case on its own.
pub fn alone(case: &Case, command: &str) -> (Verdict, Ran) {
    let dir = fresh_dir("alone");
    write_case(&dir, case);
    let ran = run_typical(&dir, &[command, &case.files[0].0]);
    remove(&dir);
    (verdict(&ran), ran)
}

pub fn verdict(ran: &Ran) -> Verdict {
    if let Some(c) = ran.crash() {
        Verdict::Crashed(c)
    } else if ran.ok() {
        Verdict::Accepted
    } else {
        Verdict::Rejected(errors(&ran.err_text()))
    }
}

/// The verdicts on all the cases, and the number of runs that took. With `format`, the accepted
/// cases are then formatted and the results are returned as the contents of the files.
pub fn batch(cases: &[Case], format: bool) -> (Vec<Verdict>, Vec<Vec<String>>, usize) {
    let dir = fresh_dir("batch");
    for (i, c) in cases.iter().enumerate() {
        write_case(&dir.join(format!("k{i}")), c);
    }
    let mut verdicts: Vec<Option<Verdict>> = vec![None; cases.len()];
    let mut runs = 0;
    decide(&dir, cases, (0..cases.len()).collect(), &mut verdicts, &mut runs, format);
    let mut formatted = vec![];
    if format {
        for (i, c) in cases.iter().enumerate() {
            formatted.push(
                c.files
                    .iter()
                    .map(|(n, _)| std::fs::read(dir.join(format!("k{i}")).join(n)).map_or("<unreadable>".into(), |b| String::from_utf8_lossy(&b).into_owned()))
                    .collect(),
            );
        }
    }
    remove(&dir);
    (verdicts.into_iter().map(|v| v.unwrap()).collect(), formatted, runs)
}

fn decide(dir: &Path, cases: &[Case], mut left: Vec<usize>, verdicts: &mut [Option<Verdict>], runs: &mut usize, format: bool) {
    while !left.is_empty() {
        let root: String = left.iter().map(|i| format!("import 'k{i}/{}' as k{i}\n", cases[*i].files[0].0)).collect();
        std::fs::write(dir.join("root.t"), root).unwrap();
        let ran = run_typical(dir, &["generate", "root.t"]);
        *runs += 1;
        match verdict(&ran) {
            Verdict::Accepted => {
                if format {
                    let ran = run_typical(dir, &["format", "root.t"]);
                    *runs += 1;
                    if let Some(c) = ran.crash() {
                        if left.len() == 1 {
                            verdicts[left[0]] = Some(Verdict::Crashed(c));
                            return;
                        }
                        let half = left.split_off(left.len() / 2);
                        decide(dir, cases, left, verdicts, runs, format);
                        decide(dir, cases, half, verdicts, runs, format);
                        return;
                    }
                }
                for i in left {
                    verdicts[i] = Some(Verdict::Accepted);
                }
                return;
            }
            Verdict::Rejected(errors) => {
                let mut hit = false;
                for e in errors {
                    if let Some(i) = owner(&e).filter(|i| left.contains(i)) {
                        hit = true;
                        match &mut verdicts[i] {
                            Some(Verdict::Rejected(es)) => es.push(e),
                            v => *v = Some(Verdict::Rejected(vec![e])),
                        }
                    }
                }
                if hit {
                    left.retain(|i| verdicts[*i].is_none());
                    continue;
                }
                if left.len() == 1 {
                    verdicts[left[0]] = Some(Verdict::Rejected(vec![ran.err_text()]));
                    return;
                }
            }
            Verdict::Crashed(c) => {
                if left.len() == 1 {
                    verdicts[left[0]] = Some(Verdict::Crashed(c));
                    return;
                }
            }
        }
        let half = left.split_off(left.len() / 2);
        decide(dir, cases, half, verdicts, runs, format);
    }
}

/// Compare the verdicts of the tool with those of the reference model, on batches of cases in
/// parallel. Returns the number of runs.
pub fn compare(report: &Report, cases: &[Vec<(String, String)>], size: usize) -> usize {
    let batches: Vec<&[Vec<(String, String)>]> = cases.chunks(size).collect();
    let runs: Vec<usize> = mc::util::par_map(driver::THREADS, &batches, |_, cases| {
        let cases: Vec<Case> = cases.iter().map(|c| Case::tree(c.clone())).collect();
        let cases = cases.as_slice();
        let (verdicts, _, runs) = batch(cases, false);
        for (c, v) in cases.iter().zip(&verdicts) {
            check_verdict(report, c, v);
        }
        runs
    });
    runs.iter().sum()
}

pub fn check_verdict(report: &Report, c: &Case, v: &Verdict) {
    report.add(if c.valid { "valid" } else { "invalid" }, 1);
    let wrong = match v {
        Verdict::Accepted => !c.valid,
        Verdict::Rejected(_) => c.valid,
        Verdict::Crashed(_) => true,
    };
    if wrong {
        let (v1, ran) = alone(c, "generate");
        let files: Vec<_> = c.files.iter().map(|(n, t)| file(n, t)).collect();
        let what = match (&v1, c.valid) {
            (Verdict::Accepted, true) => format!("valid, and accepted on its own, but among others: {v:?}"),
            (Verdict::Accepted, false) => format!("accepted, although {}", c.why),
            (Verdict::Rejected(_), true) => format!("rejected, although it is valid: {}", ran.show()),
            (Verdict::Rejected(_), false) => format!("invalid ({}), and rejected on its own, but among others: {v:?}", c.why),
            (Verdict::Crashed(how), _) => how.clone(),
        };
        report.violation(&format!("`typical generate` on {}: {what}", mc::util::clip(&c.show(), 1500)), &files);
    }
}
