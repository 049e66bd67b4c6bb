//! C22: the work which the generated code does is proportional to the message.
use crate::families;
use crate::report::Report;
use crate::rust_jobs;
use crate::ts_jobs::{self, Answer, Ask};
use mc::cost::{self, Item};
use std::collections::HashMap;
use std::sync::Mutex;

struct Pending {
    what: String,
    sizes: Vec<usize>,
    timed: Vec<usize>,
    got: Vec<(u64, u64)>,
}

pub fn c22(report: &Report) -> i32 {
    let thorough = report.thorough;
    let universes = families::growing(thorough);
    rust_jobs::run_all(report, &universes, "cost");
    let pending: Mutex<HashMap<usize, Pending>> = Mutex::new(HashMap::new());
    let next = Mutex::new(0_usize);
    let timed: Mutex<HashMap<usize, Vec<usize>>> = Mutex::new(HashMap::new());
    let large = if thorough { 1 << 16 } else { 1 << 14 };
    ts_jobs::run_all(
        report,
        &universes,
        &|ts, u, d, judge| {
            let key = std::ptr::from_ref(u) as usize;
            for s in cost::series(u, d, large) {
                let id = {
                    let mut next = next.lock().unwrap();
                    *next += 1;
                    *next
                };
                timed.lock().unwrap().entry(key).or_default().push(id);
                pending.lock().unwrap().insert(
                    id,
                    Pending {
                        what: s.what,
                        sizes: s.items.iter().map(|i| i.0).collect(),
                        timed: s.timed.iter().flatten().map(|i| i.0).collect(),
                        got: vec![],
                    },
                );
                for (_, e, item) in s.items {
                    ts.ask(e, Ask::Cost(id, false, item), judge);
                }
            }
            // All counting comes before all measuring of time, in one process.
            if d + 1 == u.decls.len() {
                let mut ids = timed.lock().unwrap().remove(&key).unwrap().into_iter();
                for e in 0..u.decls.len() {
                    for s in cost::series(u, e, large) {
                        let id = ids.next().unwrap();
                        for (_, item) in s.timed.into_iter().flatten() {
                            ts.ask(e, Ask::Cost(id, true, item), judge);
                        }
                    }
                }
            }
        },
        &|u, found, d, ask, answer, _| {
            let Ask::Cost(id, often, item) = ask else { unreachable!() };
            found.add("measurements", 1);
            let mut pending = pending.lock().unwrap();
            let p = pending.get_mut(id).unwrap();
            match answer {
                Answer::Cost(b, n) => p.got.push((b, n)),
                other => {
                    p.got.push((0, 0));
                    let what = format!("{}: {} gives {}", p.what, if matches!(item, Item::Enc(_)) { "serializing" } else { "deserializing" }, other.show());
                    found.violation(d, &what);
                }
            }
            if p.got.len() < p.sizes.len() + p.timed.len() {
                return;
            }
            let p = pending.remove(id).unwrap();
            found.add("series", 1);
            let points: Vec<(usize, u64)> = p.sizes.iter().copied().zip(p.got.iter().map(|g| g.0)).collect();
            found.outcome(format!("{points:?}").as_bytes());
            if id % 1009 == 7 {
                report.sample(format!("TypeScript: {}: {}: blocks {points:?}", u.decls[d].name, p.what));
            }
            if let Some(points) = cost::superlinear(&points, 64) {
                found.violation(d, &format!("{} takes more and more work for each: the blocks of code which are executed are {points}", p.what));
            } else if let [.., (_, a), (_, b)] = p.got[..] {
                if !p.timed.is_empty() && cost::too_slow(a, b) {
                    found.violation(d, &format!("{} takes more and more time for each: {a} ns for {} and {b} ns for {}", p.what, p.timed[0], p.timed[1]));
                }
            }
        },
    );
    report.assume("growth which is visible only in time (within one block of code) has to be by a factor of six over what is proportional, at the sizes measured");
    report.finish()
}
