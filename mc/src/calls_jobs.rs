//! C20: the calls of generated code depend on their arguments alone and affect nothing but their
//! results.
use crate::families;
use crate::report::Report;
use crate::rust_jobs;
use crate::ts_jobs::{self, Answer, Ask};
use mc::codec::{self, UnitArrays};
use mc::history::{self, Op};
use mc::util::{clip, hex_short};
use std::collections::HashMap;
use std::sync::Mutex;

pub fn shown(ask: &Ask) -> String {
    match ask {
        Ask::Encode(v) | Ask::EncodeApart(v) => format!("serialize {}", clip(&v.show(), 200)),
        Ask::Decode(m) | Ask::DecodeInside(m) | Ask::DecodeKinds(m) | Ask::DecodeApart(m) => format!("deserialize {}", hex_short(m)),
        Ask::Cost(..) => unreachable!(),
    }
}

/// The calls of TypeScript from which sequences are made.
fn alphabet(u: &mc::model::Universe, d: usize) -> Vec<Ask> {
    history::alphabet(u, d)
        .into_iter()
        .filter_map(|o| match o {
            Op::Enc(v) => Some(Ask::Encode(v)),
            Op::Dec(m) => Some(Ask::Decode(m)),
            _ => None,
        })
        .collect()
}

/// Whether this is what the reference codec says.
pub fn right(u: &mc::model::Universe, d: usize, ask: &Ask, answer: &Answer) -> bool {
    match (ask, answer) {
        (Ask::Encode(v), Answer::Bytes(n, b)) => {
            *n == b.len() && [UnitArrays::Documented, UnitArrays::SizePrefixed].iter().any(|ua| codec::encode(u, d, v, *ua) == *b)
        }
        (Ask::Encode(_), _) => false,
        (Ask::Decode(m), a) => match codec::get_message(u, d, m).map(ts_jobs::nan) {
            Ok(e) => match a {
                Answer::Val(v) => {
                    let v = ts_jobs::nan(v.clone());
                    v == e || v == ts_jobs::without_bom(e)
                }
                _ => false,
            },
            Err(codec::Bad::Missing) => matches!(a, Answer::Err(_)),
            Err(_) => matches!(a, Answer::Val(_) | Answer::Err(_)),
        },
        _ => true,
    }
}

pub fn c20(report: &Report) -> i32 {
    let thorough = report.thorough;
    let mut universes = families::hostile(thorough);
    universes.extend(families::pack(&families::wide(&[70, 130]), 20));
    rust_jobs::run_all(report, &universes, "history");
    // What calls gave the first time.
    let first: Mutex<HashMap<(usize, usize, String), String>> = Mutex::new(HashMap::new());
    let recent: Mutex<HashMap<usize, Vec<String>>> = Mutex::new(HashMap::new());
    ts_jobs::run_all(
        report,
        &universes,
        &|ts, u, d, judge| {
            // Calls which are repeated while their arguments and results change.
            for v in ts_jobs::values(u, d, thorough).into_iter().take(if thorough { 4000 } else { 400 }) {
                let m = codec::encode(u, d, &v, UnitArrays::SizePrefixed);
                if m.len() > 60_000 {
                    continue;
                }
                if m.len() > 1 {
                    ts.ask(d, Ask::DecodeApart(m[..m.len() - 1].to_vec()), judge);
                }
                ts.ask(d, Ask::DecodeKinds(m.clone()), judge);
                ts.ask(d, Ask::DecodeApart(m), judge);
                ts.ask(d, Ask::EncodeApart(v), judge);
            }
            let mine = alphabet(u, d);
            for i in history::every_succession(mine.len(), if thorough && mine.len() <= 6 { 4 } else { 3 }) {
                ts.ask(d, mine[i].clone(), judge);
            }
            if d + 1 == u.decls.len() {
                let mut all = vec![];
                for e in 0..u.decls.len() {
                    all.extend(alphabet(u, e).into_iter().step_by(if thorough { 1 } else { 2 }).map(|a| (e, a)));
                }
                for i in history::every_succession(all.len(), 2) {
                    ts.ask(all[i].0, all[i].1.clone(), judge);
                }
            }
        },
        &|u, found, d, ask, answer, complaint| {
            let key = std::ptr::from_ref(u) as usize;
            found.add("calls", 1);
            let text = answer.show();
            found.outcome(text.as_bytes());
            if !complaint.is_empty() {
                found.violation(d, &format!("{}: {complaint}", shown(ask)));
            }
            match ask {
                Ask::EncodeApart(_) | Ask::DecodeApart(_) | Ask::DecodeKinds(_) => {
                    found.add("repeated_with_changes", 1);
                    return;
                }
                _ => found.add("in_successions", 1),
            }
            let before = {
                let mut recent = recent.lock().unwrap();
                let list = recent.entry(key).or_default();
                let before = list.clone();
                list.push(format!("{}: {}", u.decls[d].name, shown(ask)));
                if list.len() > 3 {
                    list.remove(0);
                }
                before
            };
            let right = right(u, d, ask, &answer);
            let mut first = first.lock().unwrap();
            let earlier = first.entry((key, d, shown(ask))).or_insert_with(|| text.clone());
            if !right || *earlier != text {
                found.violation(d, &format!("{} gives {text} after [{}], and {earlier} the first time", shown(ask), before.join("; ")));
            }
        },
    );
    report.assume("states of the generated code which need more than three calls in succession (two for calls of different types) to arise are beyond the bound");
    report.finish()
}
