//! How the work of the generated code grows: series of values and messages which double in size in one
//! way, and the judgement of what was measured for them.
use crate::codec::{self, UnitArrays, Val};
use crate::engine::{self, Enc, Entry, Got, Out};
use crate::messages;
use crate::model::{Rule, Ty, Universe};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Item {
    Enc(Val),
    Dec(Vec<u8>),
}

/// Items which grow in one way.
pub struct Series {
    /// Where it counts as a violation.
    pub d: usize,
    pub what: String,
    pub items: Vec<(usize, usize, Item)>,
    /// The last two are large: only the time matters for them.
    pub timed: Option<[(usize, Item); 2]>,
}

type Grow<'a> = Box<dyn Fn(usize) -> Val + 'a>;

/// A small value, all of whose parts are present.
pub fn small(u: &Universe, ty: &Ty) -> Option<Val> {
    Some(match ty {
        Ty::Unit => Val::Unit,
        Ty::F64 => Val::F64(1.5_f64.to_bits()),
        Ty::U64 => Val::U64(300),
        Ty::S64 => Val::S64(-300),
        Ty::Bool => Val::Bool(true),
        Ty::Bytes => Val::Bytes(vec![7]),
        Ty::Str => Val::Str("x".into()),
        Ty::Arr(t) if **t == Ty::Unit => Val::Units(1),
        Ty::Arr(t) => Val::Arr(small(u, t).into_iter().collect()),
        Ty::Ref(d) => {
            let decl = &u.decls[*d];
            if decl.choice {
                (0..decl.fields.len()).find_map(|p| pick(u, *d, p, None))?
            } else {
                let mut out = vec![];
                for f in &decl.fields {
                    match (small(u, &f.ty), f.rule) {
                        (None, Rule::Opt) => out.push(None),
                        (None, _) => return None,
                        (v, _) => out.push(v),
                    }
                }
                Val::Struct(out)
            }
        }
    })
}

/// A choice with this field, which contains the given value or a small one.
fn pick(u: &Universe, d: usize, pos: usize, v: Option<Val>) -> Option<Val> {
    let f = &u.decls[d].fields[pos];
    let v = match v {
        Some(v) => v,
        None => small(u, &f.ty)?,
    };
    let fallback = match f.rule {
        Rule::Req => None,
        _ => {
            let last = u.decls[d].fields.iter().position(|g| g.rule == Rule::Req && small(u, &g.ty).is_some())?;
            Some(Box::new(pick(u, d, last, None)?))
        }
    };
    Some(Val::Choice(pos, Box::new(v), fallback))
}

/// The ways in which values of a type can grow.
fn ways<'a>(u: &'a Universe, ty: &'a Ty, path: &str) -> Vec<(String, Grow<'a>)> {
    let mut out: Vec<(String, Grow<'a>)> = vec![];
    match ty {
        Ty::Bytes => out.push((format!("bytes of {path}"), Box::new(|n| Val::Bytes(vec![7; n])))),
        Ty::Str => out.push((format!("characters of {path}"), Box::new(|n| Val::Str("x".repeat(n))))),
        // (The message does not grow with them.)
        Ty::Arr(t) if **t == Ty::Unit => {}
        Ty::Arr(t) => {
            if let Some(one) = small(u, t) {
                out.push((format!("elements of {path}"), Box::new(move |n| Val::Arr(vec![one.clone(); n]))));
            }
            for (what, grow) in ways(u, t, &format!("an element of {path}")) {
                out.push((what, Box::new(move |n| Val::Arr(vec![grow(n)]))));
            }
        }
        Ty::Ref(d) => {
            let decl = &u.decls[*d];
            for (pos, f) in decl.fields.iter().enumerate() {
                if decl.fields.len() > 12 && pos > 0 && pos + 1 < decl.fields.len() {
                    continue;
                }
                let Some(base) = (if decl.choice { pick(u, *d, pos, None) } else { small(u, ty) }) else { continue };
                for (what, grow) in ways(u, &f.ty, &format!("{path}.{}", f.name)) {
                    let base = base.clone();
                    out.push((
                        what,
                        Box::new(move |n| match base.clone() {
                            Val::Struct(mut fields) => {
                                fields[pos] = Some(grow(n));
                                Val::Struct(fields)
                            }
                            Val::Choice(p, _, fallback) => Val::Choice(p, Box::new(grow(n)), fallback),
                            _ => unreachable!(),
                        }),
                    ));
                }
                if decl.choice && f.rule != Rule::Req {
                    out.push((
                        format!("fallbacks of {path}.{}", f.name),
                        Box::new(move |n| {
                            let Val::Choice(p, v, Some(mut last)) = base.clone() else { unreachable!() };
                            for _ in 0..n {
                                last = Box::new(Val::Choice(p, v.clone(), Some(last)));
                            }
                            *last
                        }),
                    ));
                }
            }
        }
        _ => {}
    }
    out
}

pub const STEPS: [usize; 6] = [16, 32, 64, 128, 256, 512];

/// All the series for a type; those which go through several types come with the last of these.
/// The large ones are sixteen times apart.
pub fn series(u: &Universe, d: usize, large: usize) -> Vec<Series> {
    let mut out = vec![];
    let large = [large / 16, large];
    let encode = |v: &Val| codec::encode(u, d, v, UnitArrays::SizePrefixed);
    let ty = Ty::Ref(d);
    let grows = step(&u.decls[d].name);
    for (what, grow) in ways(u, &ty, &u.decls[d].name).into_iter().filter(|_| grows.is_none()) {
        let deep = what.starts_with("fallbacks");
        for enc in [true, false] {
            let item = |n: usize| {
                let v = grow(n);
                if enc {
                    Item::Enc(v)
                } else {
                    Item::Dec(encode(&v))
                }
            };
            out.push(Series {
                d,
                what: format!("{} {what}", if enc { "serializing more" } else { "deserializing more" }),
                items: STEPS.iter().map(|n| (*n, d, item(*n))).collect(),
                timed: (!deep).then(|| large.map(|n| (n, item(n)))),
            });
        }
    }
    // Messages with more fields.
    if let (Some(one), None) = (small(u, &ty), grows) {
        let one = encode(&one);
        let unknown = messages::unused_index(u, d) + 3;
        let field = |size: usize, integer: bool| {
            let mut item = vec![];
            codec::put_header(unknown, size, integer, &mut item);
            item.extend(if integer { vec![3] } else { vec![1; size] });
            item
        };
        let mut more: Vec<(String, Box<dyn Fn(usize) -> Vec<u8>>)> = vec![];
        for (what, item) in [("of no bytes", field(0, false)), ("of 8 bytes", field(8, false)), ("with integers", field(1, true)), ("of 3 bytes", field(3, false))] {
            let (a, b, i, j) = (one.clone(), one.clone(), item.clone(), item.clone());
            more.push((format!("unknown fields {what} before the others"), Box::new(move |n| [&i.repeat(n)[..], &a].concat())));
            more.push((format!("unknown fields {what} after the others"), Box::new(move |n| [&b[..], &j.repeat(n)].concat())));
        }
        let a = one.clone();
        more.push((
            "bytes of an unknown field".into(),
            Box::new(move |n| {
                let mut m = vec![];
                codec::put_header(unknown, n.max(9), false, &mut m);
                m.extend(vec![1; n.max(9)]);
                m.extend(&a);
                m
            }),
        ));
        // (Repeated fields of choices are their fallbacks, or are not read.)
        if !u.decls[d].choice && !one.is_empty() {
            more.push(("repetitions of all fields".into(), Box::new(move |n| one.repeat(n))));
        }
        for (what, make) in more {
            out.push(Series {
                d,
                what: format!("deserializing more {what}"),
                items: STEPS.iter().map(|n| (*n, d, Item::Dec(make(*n)))).collect(),
                timed: Some(large.map(|n| (n, Item::Dec(make(n))))),
            });
        }
    }
    // Types which grow: a name ending with `_step3` and so on is a part of the series.
    if let Some((family, last)) = grows {
        let mut members: BTreeMap<usize, usize> = BTreeMap::new();
        for (e, decl) in u.decls.iter().enumerate() {
            if let Some((f, n)) = step(&decl.name) {
                if f == family {
                    members.insert(n, e);
                }
            }
        }
        if members.keys().next_back() == Some(&last) {
            let steps: Vec<(usize, usize)> = doublings(members.keys().next_back().copied().unwrap(), &members);
            for enc in [true, false] {
                let mut items = vec![];
                for (n, e) in &steps {
                    if let Some(v) = small(u, &Ty::Ref(*e)) {
                        items.push((*n, *e, if enc { Item::Enc(v) } else { Item::Dec(codec::encode(u, *e, &v, UnitArrays::SizePrefixed)) }));
                    }
                }
                out.push(Series { d, what: format!("{} the larger types {family}", if enc { "serializing" } else { "deserializing" }), items, timed: None });
            }
        }
    }
    out
}

fn doublings(last: usize, members: &BTreeMap<usize, usize>) -> Vec<(usize, usize)> {
    let mut n = last;
    let mut out = vec![];
    while n > 0 {
        if let Some(e) = members.get(&n) {
            out.push((n, *e));
        }
        if n % 2 == 1 {
            break;
        }
        n /= 2;
    }
    out.reverse();
    out
}

fn step(name: &str) -> Option<(&str, usize)> {
    let (family, n) = name.split_once("Step")?;
    Some((family, n.parse().ok()?))
}

/// What is wrong with the growth of a quantity measured for sizes each of which is twice the one before.
/// (Twice as much of it is linear, and four times is quadratic.)
pub fn superlinear(points: &[(usize, u64)], slack: u64) -> Option<String> {
    for w in points.windows(3) {
        let (first, second) = (w[1].1.saturating_sub(w[0].1), w[2].1.saturating_sub(w[1].1));
        if second > first.saturating_mul(9) / 4 + slack {
            return Some(format!("{points:?}"));
        }
    }
    None
}

/// Whether the large one took too long: sixteen times the size may take six times as long as that.
pub fn too_slow(small: u64, large: u64) -> bool {
    large > small * 16 * 6 + 20_000_000
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// The processor time of this thread in nanoseconds.
fn now() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    (t.sec * 1_000_000_000 + t.nsec) as u64
}

/// The part of C22 for Rust. `blocks` is how many blocks of code were executed so far.
pub fn cost(u: &Universe, t: &[Entry], d: usize, thorough: bool, blocks: fn() -> u64, out: &mut Out) {
    for s in series(u, d, if thorough { 1 << 17 } else { 1 << 16 }) {
        out.add("series", 1);
        let mut measured = [vec![], vec![]];
        let mut run = |e: usize, item: &Item, out: &mut Out| -> Option<(u64, u64, u64)> {
            out.add("measurements", 1);
            let (b, m, n) = (blocks(), engine::allocated(), now());
            let wrong = match item {
                Item::Enc(v) => match engine::encode(&t[e], v) {
                    Enc::Bytes(..) => None,
                    Enc::Err(e) => Some(format!("{e:?}")),
                    Enc::Panic(p) => Some(p),
                },
                Item::Dec(m) => {
                    let mut reader: &[u8] = m;
                    match engine::decode(&t[e], &mut reader) {
                        Got::Val(_) => None,
                        other => Some(crate::util::clip(&other.show(), 300)),
                    }
                }
            };
            let r = (blocks().wrapping_sub(b), engine::allocated().wrapping_sub(m), now() - n);
            if let Some(wrong) = wrong {
                out.violation(s.d, &format!("{}: {wrong}", s.what));
                return None;
            }
            Some(r)
        };
        let mut complete = true;
        for (n, e, item) in &s.items {
            match run(*e, item, out) {
                Some((b, m, _)) => {
                    measured[0].push((*n, b));
                    measured[1].push((*n, m));
                }
                None => complete = false,
            }
        }
        if !complete {
            continue;
        }
        out.outcome(format!("{:?}", measured[0]).as_bytes());
        if d % 11 == 3 && out.counts["series"] % 17 == 1 {
            out.sample(format!("{}: {}: blocks {:?}", u.decls[d].name, s.what, measured[0]));
        }
        if let Some(p) = superlinear(&measured[0], 64) {
            out.violation(s.d, &format!("{} takes more and more work for each: the blocks of code which are executed are {p}", s.what));
            continue;
        }
        if let Some(p) = superlinear(&measured[1], 8192) {
            out.violation(s.d, &format!("{} takes more and more memory for each: the bytes which are allocated are {p}", s.what));
            continue;
        }
        if let Some([(n, a), (m, b)]) = &s.timed {
            let mut best = (u64::MAX, u64::MAX);
            let mut slow = true;
            for _ in 0..5 {
                let (Some((_, _, x)), Some((_, _, y))) = (run(s.d, a, out), run(s.d, b, out)) else { break };
                best = (best.0.min(x), best.1.min(y));
                // (The smaller one is taken as the larger of two, as it may have been lucky.)
                slow = too_slow(x.max(best.0), best.1);
                if !slow {
                    break;
                }
            }
            if slow && best.1 != u64::MAX {
                out.violation(s.d, &format!("{} takes more and more time for each: {} ns for {n} and {} ns for {m}", s.what, best.0, best.1));
            }
        }
    }
}
