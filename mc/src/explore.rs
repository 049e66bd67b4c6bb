//! The explorations of readers, hostile bytes, schema versions and streams.
use crate::codec::{self, Bad, UnitArrays, Val};
use crate::engine::{self, decode, panic_text, Enc, Entry, Fault, Got, Out, Script, Sink};
use crate::messages;
use crate::model::{Rule, Ty, Universe};
use crate::util::hex_short;
use crate::values::Values;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

/// C04.
pub fn readers(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    messages::well_formed(u, d, thorough, &mut |m| {
        out.add("messages", 1);
        let expected = codec::get_message(u, d, m);
        engine::watch(d, m);
        let mut r = Script::new(m, &[usize::MAX]);
        let got = decode(&t[d], &mut r);
        match (&expected, &got) {
            (Ok(e), Got::Val(g)) if e == g => out.add("accepted", 1),
            (Err(Bad::Missing), Got::Err(_)) => out.add("rejected", 1),
            (Err(Bad::Malformed(_) | Bad::Overrun), _) => out.add("unspecified", 1),
            (Ok(e), _) => out.violation(d, &format!("the message {} means {} but is read as {}", hex_short(m), e.show(), got.show())),
            (Err(_), _) => out.violation(d, &format!("the message {} lacks a required field but is read as {}", hex_short(m), got.show())),
        }
        if let Got::Val(v) = &got {
            out.outcome(v.show().as_bytes());
        }
        if d % 7 == 6 && out.counts["messages"] % 331 == 1 {
            out.sample(format!("{}: {} -> {}", u.decls[d].name, hex_short(m), got.show()));
        }
    });
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(status: i32) -> !;
}

/// The memory which decoding a message of this length may use at most: proportional to it.
fn memory_bound(len: usize) -> usize {
    4096 + 1024 * len
}

/// The largest size which any part of the message could declare.
fn largest_declared(m: &[u8]) -> u64 {
    (0..m.len()).filter_map(|i| codec::get_varint(&m[i..])).map(|(v, _)| v).max().unwrap_or(0)
}

fn contains(u: &Universe, ty: &Ty, p: &dyn Fn(&Ty) -> bool) -> bool {
    p(ty)
        || match ty {
            Ty::Arr(t) => contains(u, t, p),
            Ty::Ref(d) => u.decls[*d].fields.iter().any(|f| contains(u, &f.ty, p)),
            _ => false,
        }
}

/// Judge the outcome of decoding some bytes. A known finding is recognized exactly: see DESIGN.md.
fn judge(u: &Universe, d: usize, m: &[u8], got: &Got, peak: usize, polls: &engine::Polls, out: &mut Out) {
    let expected = codec::get_message(u, d, m);
    let blobs = u.decls[d].fields.iter().any(|f| {
        contains(u, &f.ty, &|t| matches!(t, Ty::Bytes | Ty::Str) || matches!(t, Ty::Arr(e) if **e == Ty::F64))
    });
    let malformed = matches!(expected, Err(Bad::Overrun | Bad::Malformed(_)));
    match got {
        Got::Panic(p) if p == engine::LIVELOCK => {
            if malformed && polls.fill > 1000 {
                out.known("D1", || format!("{}: {}", u.decls[d].name, hex_short(m)));
            } else {
                out.violation(d, &format!("decoding {} never ends", hex_short(m)));
            }
        }
        Got::Panic(p) if p.contains("capacity overflow") && malformed && blobs => {
            out.known("D2", || format!("{}: {} panics: {p}", u.decls[d].name, hex_short(m)));
        }
        Got::Panic(p) => out.violation(d, &format!("decoding {} panics: {p}", hex_short(m))),
        Got::Val(v) => match &expected {
            Ok(e) if e != v => {
                out.violation(d, &format!("the well-formed message {} means {} but is read as {}", hex_short(m), e.show(), v.show()));
            }
            Err(Bad::Missing) => {
                out.violation(d, &format!("the message {} lacks a required field but is read as {}", hex_short(m), v.show()));
            }
            _ => out.add("values", 1),
        },
        Got::Err(e) => {
            if let Ok(v) = &expected {
                out.violation(d, &format!("the well-formed message {} means {} but is rejected: {e:?}", hex_short(m), v.show()));
            }
            out.add("errors", 1);
        }
    }
    if peak > memory_bound(m.len()) && !matches!(got, Got::Panic(_)) {
        let declared = largest_declared(m);
        if malformed && blobs && (peak as u64) <= declared.saturating_mul(2).saturating_add(memory_bound(m.len()) as u64) {
            out.known("D2", || format!("{}: {} makes it allocate {peak} bytes", u.decls[d].name, hex_short(m)));
        } else {
            out.violation(d, &format!("decoding {} ({} bytes) allocates {peak} bytes", hex_short(m), m.len()));
        }
    }
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Expect {
    /// The reader spins in `skip` for an unknown field which is longer than the field which contains
    /// it (D1).
    Spin,
    /// The reader reserves the declared size of a field (D2).
    Reserve,
    /// An array of many units, which takes long by design.
    Units,
    /// Nothing which stops the exploration.
    Fine,
}

/// What the reader is expected to do with a hostile message, following what the generated code does
/// with truncated fields. Messages which are expected to spin or to reserve a lot are not run in this
/// process; a few are in forked processes as a confirmation.
pub fn expect(u: &Universe, d: usize, m: &[u8]) -> Expect {
    struct R<'a> {
        m: &'a [u8],
        pos: usize,
    }
    enum Stop {
        Eof,
        Error,
        Special(Expect),
    }
    fn units(n: u64) -> Result<(), Stop> {
        if n > 1 << 16 {
            Err(Stop::Special(Expect::Units))
        } else {
            Ok(())
        }
    }
    impl R<'_> {
        fn varint(&mut self, end: usize) -> Result<u64, Stop> {
            let end = end.min(self.m.len());
            match codec::get_varint(&self.m[self.pos..end]) {
                Some((v, n)) => {
                    self.pos += n;
                    Ok(v)
                }
                None => {
                    self.pos = end;
                    Err(Stop::Eof)
                }
            }
        }
        fn sub(&self, end: usize, size: u64) -> usize {
            end.min(self.pos.saturating_add(usize::try_from(size).unwrap_or(usize::MAX)))
        }
        fn exact8(&mut self, end: usize) -> Result<(), Stop> {
            let end = end.min(self.m.len());
            if end - self.pos < 8 {
                self.pos = end;
                return Err(Stop::Eof);
            }
            self.pos += 8;
            Ok(())
        }
        fn elements(&mut self, u: &Universe, ty: &Ty, end: usize) -> Result<(), Stop> {
            loop {
                match ty {
                    Ty::U64 | Ty::S64 | Ty::Bool | Ty::F64 => {
                        let r = if *ty == Ty::F64 { self.exact8(end) } else { self.varint(end).map(|_| ()) };
                        match r {
                            Err(Stop::Eof) => return Ok(()),
                            r => r?,
                        }
                    }
                    _ => {
                        let size = match self.varint(end) {
                            Err(Stop::Eof) => return Ok(()),
                            r => r?,
                        };
                        let e = self.sub(end, size);
                        self.element(u, ty, e, size)?;
                    }
                }
            }
        }
        fn element(&mut self, u: &Universe, ty: &Ty, end: usize, size: u64) -> Result<(), Stop> {
            match ty {
                // These make it reserve too much memory (D2).
                Ty::Bytes | Ty::Str if size > 1 << 26 => Err(Stop::Special(Expect::Reserve)),
                Ty::Arr(t) if **t == Ty::F64 && size > 1 << 26 => Err(Stop::Special(Expect::Reserve)),
                Ty::Unit => Ok(()),
                Ty::Bytes => {
                    self.pos = end.min(self.m.len());
                    Ok(())
                }
                Ty::Str => {
                    let end = end.min(self.m.len());
                    let t = &self.m[self.pos..end];
                    self.pos = end;
                    std::str::from_utf8(t).map(|_| ()).map_err(|_| Stop::Error)
                }
                Ty::Arr(t) if **t == Ty::Unit => self.varint(end).and_then(units),
                Ty::Arr(t) => self.elements(u, t, end),
                Ty::Ref(d) => self.message(u, *d, end),
                _ => self.varint(end).map(|_| ()),
            }
        }
        fn message(&mut self, u: &Universe, d: usize, end: usize) -> Result<(), Stop> {
            let d = &u.decls[d];
            let mut found = vec![false; d.fields.len()];
            loop {
                let header = self.header(end);
                let (idx, size) = match header {
                    Err(Stop::Eof) if !d.choice => {
                        let missing = d.fields.iter().zip(&found).any(|(f, x)| f.rule == Rule::Req && !x);
                        return if missing { Err(Stop::Error) } else { Ok(()) };
                    }
                    r => r?,
                };
                let e = self.sub(end, size);
                match d.fields.iter().position(|f| f.idx == idx) {
                    None => {
                        let available = e.min(self.m.len()) - self.pos;
                        if size > available as u64 {
                            // It spins without asking for more if a field ends here. Otherwise the
                            // script notices.
                            return Err(if end <= self.m.len() { Stop::Special(Expect::Spin) } else { Stop::Error });
                        }
                        self.pos = e.min(self.m.len());
                    }
                    Some(i) => {
                        match &d.fields[i].ty {
                            Ty::F64 if size == 0 => {}
                            Ty::F64 => self.exact8(e)?,
                            Ty::U64 | Ty::S64 | Ty::Bool => self.compact(size, e).map(|_| ())?,
                            Ty::Arr(t) if **t == Ty::Unit => self.compact(size, e).and_then(units)?,
                            ty => self.element(u, ty, e, size)?,
                        }
                        found[i] = true;
                        if d.choice && d.fields[i].rule != Rule::Opt {
                            self.pos = end.min(self.m.len());
                            return Ok(());
                        }
                        // An optional field of a choice is followed by the fallback.
                        if d.choice {
                            found.fill(false);
                        }
                    }
                }
            }
        }
        fn compact(&mut self, size: u64, end: usize) -> Result<u64, Stop> {
            match size {
                0 => Ok(0),
                8 => {
                    self.exact8(end)?;
                    Ok(u64::from_le_bytes(self.m[self.pos - 8..self.pos].try_into().unwrap()))
                }
                _ => self.varint(end),
            }
        }
        fn header(&mut self, end: usize) -> Result<(u64, u64), Stop> {
            let tag = self.varint(end)?;
            let size = match tag & 3 {
                0 => 0,
                1 => 8,
                2 => {
                    if self.pos == end.min(self.m.len()) {
                        return Err(Stop::Eof);
                    }
                    u64::from(self.m[self.pos].trailing_zeros()) + 1
                }
                _ => self.varint(end)?,
            };
            Ok((tag >> 2, size))
        }
    }
    match (R { m, pos: 0 }).message(u, d, usize::MAX) {
        Err(Stop::Special(e)) => e,
        _ => Expect::Fine,
    }
}

/// C05.
pub fn hostile(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    let bounds = if thorough { messages::Hostile { len: 5, bases: 300, double: 10 } } else { messages::Hostile { len: 4, bases: 60, double: 5 } };
    let mut seen = std::collections::HashSet::new();
    // Messages which could make the process end are tried in a forked process.
    let mut dangerous: Vec<Vec<u8>> = vec![];
    let mut spinning: Vec<Vec<u8>> = vec![];
    let mut reserving: Vec<Vec<u8>> = vec![];
    let mut each = |m: &[u8], out: &mut Out| {
        if !seen.insert(crate::util::fnv(m)) {
            return;
        }
        match expect(u, d, m) {
            Expect::Units => {
                out.add("skipped_units", 1);
                return;
            }
            Expect::Spin => {
                spinning.push(m.to_vec());
                return;
            }
            Expect::Reserve => {
                reserving.push(m.to_vec());
                return;
            }
            Expect::Fine => {}
        }
        if largest_declared(m) >= engine::HUGE as u64 / 4 {
            dangerous.push(m.to_vec());
            return;
        }
        out.add("messages", 1);
        engine::watch(d, m);
        let mut r = Script::new(m, &[usize::MAX]);
        let got = decode(&t[d], &mut r);
        let peak = engine::LAST_PEAK.load(Ordering::Relaxed);
        judge(u, d, m, &got, peak, &r.at_end, out);
        if d % 7 == 6 && out.counts["messages"] % 9973 == 1 {
            out.sample(format!("{}: {} -> {}", u.decls[d].name, hex_short(m), got.show()));
        }
    };
    let bases = messages::hostile(u, d, bounds, &mut |m| each(m, out));
    out.add("bases", bases as u64);
    messages::long(u, d, &mut |m| {
        out.add("long_messages", 1);
        each(m, out);
    });
    deepest(u, t, d, out);
    // Confirm that some of those which are expected to fail do. Otherwise try all of them.
    for (finding, list) in [("D1", spinning), ("D2", reserving)] {
        let n = list.len();
        let picked: Vec<&Vec<u8>> = list.iter().step_by(n.div_ceil(if thorough { 10 } else { 3 }).max(1)).collect();
        let confirmed = picked.iter().all(|m| {
            let status = forked(200, || run_one(u, t, d, m));
            if finding == "D1" {
                status.is_none()
            } else {
                matches!(status, Some(engine::HUGE_STATUS | KNOWN_STATUS))
            }
        });
        if !confirmed {
            dangerous.splice(0..0, list);
        } else if let Some(m) = picked.first() {
            let what = if finding == "D1" { "never ends" } else { "reserves the declared size" };
            out.known(finding, || format!("{}: {} (nested) {what}", u.decls[d].name, hex_short(m)));
            out.add(if finding == "D1" { "confirmed_spins" } else { "confirmed_reservations" }, picked.len() as u64);
            out.add("not_run_because_of_known_findings", (n - picked.len()) as u64);
        }
    }
    let shared = shared_page();
    let mut first = 0;
    let mut killed = 0;
    while first < dangerous.len() && killed < 200 {
        // One process for as many messages as it survives.
        shared.fill(0);
        let status = forked(60_000, || {
            for (i, m) in dangerous[first..].iter().enumerate() {
                shared[0] = i as u64;
                match run_one(u, t, d, m) {
                    0 => {}
                    KNOWN_STATUS => {
                        // To be judged in the parent.
                        shared[1] += 1;
                        shared[2] = i as u64;
                    }
                    _ => {
                        if shared[3] < 100 {
                            shared[4 + shared[3] as usize] = i as u64;
                        }
                        shared[3] += 1;
                    }
                }
            }
            0
        });
        let rejudge = |i: u64, out: &mut Out| {
            let m = &dangerous[first + i as usize];
            let mut r = Script::new(m, &[usize::MAX]);
            let got = decode(&t[d], &mut r);
            judge(u, d, m, &got, engine::LAST_PEAK.load(Ordering::Relaxed), &r.at_end, out);
        };
        if shared[1] > 0 {
            rejudge(shared[2], out);
        }
        for i in &shared[4..4 + (shared[3] as usize).min(100)] {
            rejudge(*i, out);
        }
        if status == Some(0) {
            out.add("messages", (dangerous.len() - first) as u64);
            out.add("run_in_forked_processes", (dangerous.len() - first) as u64);
            break;
        }
        let at = first + shared[0] as usize;
        let m = &dangerous[at];
        out.add("messages", (at + 1 - first) as u64);
        killed += 1;
        match status {
            Some(engine::HUGE_STATUS) => out.violation(d, &format!("decoding {} allocates more than a gigabyte", hex_short(m))),
            other => out.violation(d, &format!("decoding {} ends the process or never ends ({other:?})", hex_short(m))),
        }
        first = at + 1;
    }
}

/// Chains of this many fallbacks exhaust the stack, which is the known finding D21.
pub const DEEPEST: usize = 1_000_000;

/// Whether a very long chain of fallbacks makes the process end, once for every program.
fn deepest(u: &Universe, t: &[Entry], d: usize, out: &mut Out) {
    static DONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    if DONE.load(Ordering::Relaxed) {
        return;
    }
    let Some(m) = messages::chain(u, d, DEEPEST) else { return };
    DONE.store(true, Ordering::Relaxed);
    out.add("messages", 1);
    // On a stack of the size which threads have unless told otherwise.
    let status = forked_signal(20_000, || {
        let run = || {
            let mut r = Script::new(&m, &[usize::MAX]);
            match decode(&t[d], &mut r) {
                Got::Panic(_) => BAD_STATUS,
                got => {
                    std::mem::forget(got);
                    0
                }
            }
        };
        std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).unwrap().join().unwrap())
    });
    match status {
        Ok(0) => {}
        // An abort or a segmentation fault.
        Err(6 | 11) => out.known("D21", || format!("{}: {} fallbacks in {} bytes end the process", u.decls[d].name, DEEPEST, m.len())),
        other => out.violation(d, &format!("decoding {} fallbacks panics or never ends ({other:?})", DEEPEST)),
    }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
}

/// Memory which forked processes share with this one.
fn shared_page() -> &'static mut [u64] {
    static PAGE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *PAGE.get_or_init(|| unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as usize });
    assert!(p != usize::MAX);
    unsafe { std::slice::from_raw_parts_mut(p as *mut u64, 512) }
}

const KNOWN_STATUS: i32 = 2;
const BAD_STATUS: i32 = 1;

/// Decode a message and say what that shows, as an exit status.
fn run_one(u: &Universe, t: &[Entry], d: usize, m: &[u8]) -> i32 {
    let mut r = Script::new(m, &[usize::MAX]);
    let got = decode(&t[d], &mut r);
    let peak = engine::LAST_PEAK.load(Ordering::Relaxed);
    let mut probe = Out::probe();
    judge(u, d, m, &got, peak, &r.at_end, &mut probe);
    if probe.violations > 0 {
        BAD_STATUS
    } else if probe.has_known() {
        KNOWN_STATUS
    } else {
        0
    }
}

#[repr(C)]
struct Timer {
    interval: [i64; 2],
    value: [i64; 2],
}
extern "C" {
    fn setitimer(which: i32, new: *const Timer, old: *mut Timer) -> i32;
}

/// Run something in a forked process, with a limit of milliseconds of processor time.
fn forked(millis: i64, f: impl FnOnce() -> i32) -> Option<i32> {
    forked_signal(millis, f).ok()
}

/// The same, but says which signal ended the process.
fn forked_signal(millis: i64, f: impl FnOnce() -> i32) -> Result<i32, i32> {
    unsafe {
        let pid = fork();
        if pid == 0 {
            engine::FORKED.store(true, Ordering::Relaxed);
            setitimer(1, &Timer { interval: [0, 0], value: [millis / 1000, millis % 1000 * 1000] }, std::ptr::null_mut());
            let s = f();
            _exit(s);
        }
        let mut status = 0;
        while waitpid(pid, &mut status, 0) < 0 {}
        if status & 0x7f == 0 {
            Ok((status >> 8) & 0xff)
        } else {
            Err(status & 0x7f)
        }
    }
}

/// What a reader with version `b` of a type should get from what a writer with version `a` wrote,
/// by the indices of the fields.
fn migrate(u: &Universe, a: &Ty, b: &Ty, v: &Val) -> Option<Val> {
    match (a, b, v) {
        (Ty::Arr(x), Ty::Arr(y), Val::Arr(items)) => Some(Val::Arr(items.iter().map(|i| migrate(u, x, y, i)).collect::<Option<Vec<_>>>()?)),
        (Ty::Ref(x), Ty::Ref(y), v) => migrate_message(u, *x, *y, v),
        (_, _, v) => Some(v.clone()),
    }
}

pub fn migrate_message(u: &Universe, a: usize, b: usize, v: &Val) -> Option<Val> {
    let (da, db) = (&u.decls[a], &u.decls[b]);
    // The fields as written, in order.
    let mut written: Vec<(usize, &Val)> = vec![];
    match v {
        Val::Struct(f) => written.extend(f.iter().enumerate().filter_map(|(i, v)| v.as_ref().map(|v| (i, v)))),
        v => {
            let mut v = v;
            loop {
                let Val::Choice(pos, p, fb) = v else { return None };
                written.push((*pos, p));
                match fb {
                    Some(fb) => v = fb,
                    None => break,
                }
            }
        }
    }
    let known: Vec<(usize, Val)> = written
        .iter()
        .filter_map(|(pa, v)| {
            let pb = db.fields.iter().position(|f| f.idx == da.fields[*pa].idx)?;
            migrate(u, &da.fields[*pa].ty, &db.fields[pb].ty, v).map(|v| (pb, v))
        })
        .collect();
    if db.choice {
        fn chain(u: &Universe, b: usize, known: &[(usize, Val)]) -> Option<Val> {
            let (pb, v) = known.first()?;
            let fb = if u.decls[b].fields[*pb].rule == Rule::Opt { Some(chain(u, b, &known[1..])?) } else { None };
            Some(engine::ch(*pb, v.clone(), fb))
        }
        chain(u, b, &known)
    } else {
        let mut fields = vec![None; db.fields.len()];
        for (pb, v) in known {
            fields[pb] = Some(v);
        }
        for (f, v) in db.fields.iter().zip(&fields) {
            if f.rule == Rule::Req && v.is_none() {
                return None;
            }
        }
        Some(Val::Struct(fields))
    }
}

/// C06.
pub fn evolve(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    let readers: Vec<usize> = u.pairs.iter().filter(|(a, _)| *a == d).map(|(_, b)| *b).collect();
    if readers.is_empty() {
        return;
    }
    out.add("writers", 1);
    let vs = Values::new(u);
    let mut values = vs.messages(d, 1, 3);
    if thorough {
        values.extend(vs.messages(d, 2, 3));
        values = crate::values::dedup(values);
    }
    for v in values {
        let bytes = match engine::encode(&t[d], &v) {
            Enc::Bytes(_, b) => b,
            Enc::Err(e) => {
                out.violation(d, &format!("serialize fails with {e:?} for {}", v.show()));
                continue;
            }
            Enc::Panic(p) => {
                out.violation(d, &format!("serialize panics ({p}) for {}", v.show()));
                continue;
            }
        };
        out.add("messages", 1);
        for b in &readers {
            out.add("readings", 1);
            let expected = migrate_message(u, d, *b, &v);
            engine::watch(*b, &bytes);
            let mut r = Script::new(&bytes, &[usize::MAX]);
            let got = decode(&t[*b], &mut r);
            match (&expected, &got) {
                (Some(e), Got::Val(g)) if e == g => {
                    out.outcome(&[&bytes[..], &b.to_le_bytes()[..]].concat());
                }
                _ => out.violation(
                    d,
                    &format!(
                        "the message {} for {} should be read as {} by the compatible type {} but is read as {}",
                        hex_short(&bytes),
                        v.show(),
                        expected.map_or("a value".to_owned(), |e| e.show()),
                        u.decl_source(*b),
                        got.show()
                    ),
                ),
            }
            if out.counts["readings"] % 9973 == 77 {
                out.sample(format!("{} -> {}: {} -> {} -> {}", u.decls[d].name, u.decls[*b].name, v.show(), hex_short(&bytes), got.show()));
            }
        }
    }
}

/// C07.
pub fn stream(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    let vs = Values::new(u);
    let max_all = if thorough { 16 } else { 13 };
    let mut values = vs.messages(d, 1, 2);
    let keep = if thorough { 600 } else { 100 };
    if values.len() > keep {
        // Keep the ends and the middle of the enumeration.
        let step = values.len().div_ceil(keep);
        values = values.into_iter().step_by(step).collect();
    }
    for v in values {
        let bytes = codec::encode(u, d, &v, UnitArrays::SizePrefixed);
        engine::watch(d, &bytes);
        let mut whole = Script::new(&bytes, &[usize::MAX]);
        let reference = codec::to_in_message(u, d, &v);
        match decode(&t[d], &mut whole) {
            Got::Val(g) if g == reference => {}
            got => out.violation(d, &format!("the message {} for {} is read as {}", hex_short(&bytes), v.show(), got.show())),
        }
        out.add("messages", 1);
        // With an unknown field in between too, so that skipping is explored.
        let mut with_unknown = bytes.clone();
        let next = messages::unused_index(u, d);
        let mut m = vec![];
        codec::put_header(next, 3, false, &mut m);
        m.extend([1, 9, 7]);
        with_unknown.splice(0..0, m);
        for bytes in [&bytes, &with_unknown] {
            let Ok(expected) = codec::get_message(u, d, bytes) else { continue };
            let mut schedules: Vec<Vec<usize>> = vec![];
            let n = bytes.len();
            if n <= max_all && n > 0 {
                for mask in 0..1_u32 << (n - 1) {
                    let mut chunks = vec![];
                    let mut len = 1;
                    for i in 0..n - 1 {
                        if mask >> i & 1 == 1 {
                            chunks.push(len);
                            len = 0;
                        }
                        len += 1;
                    }
                    chunks.push(len);
                    schedules.push(chunks);
                }
            } else {
                for k in 1..=9.min(n.max(1)) {
                    schedules.push(vec![k]);
                }
                for cut in 1..n.min(300) {
                    schedules.push(vec![cut, usize::MAX]);
                    schedules.push(vec![cut, 1]);
                    schedules.push(vec![cut, 1, usize::MAX]);
                }
            }
            for chunks in &schedules {
                let mut r = Script::new(bytes, chunks);
                let got = decode(&t[d], &mut r);
                out.add("schedules", 1);
                out.add("stream_calls", r.calls as u64);
                match &got {
                    Got::Val(g) if *g == expected => {}
                    _ => out.violation(
                        d,
                        &format!("the message {} read in chunks {chunks:?} gives {} instead of {}", hex_short(bytes), got.show(), expected.show()),
                    ),
                }
            }
            // A failure at every call, for some chunkings.
            for chunks in [vec![usize::MAX], vec![1], vec![2], vec![3, 1, usize::MAX]] {
                let mut probe = Script::new(bytes, &chunks);
                let _ = decode(&t[d], &mut probe);
                let calls = probe.calls.min(400);
                for at in 0..calls {
                    for kind in [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::UnexpectedEof] {
                        let mut r = Script::new(bytes, &chunks);
                        r.fail_at = Some((at, kind));
                        let got = decode(&t[d], &mut r);
                        out.add("faults", 1);
                        out.add("stream_calls", r.calls as u64);
                        if let Got::Err(e) = &got {
                            out.outcome(format!("{} {at} {chunks:?} {:?}", hex_short(bytes), e.kind()).as_bytes());
                        }
                        match &got {
                            Got::Err(_) => {}
                            // `std` retries interrupted calls.
                            Got::Val(g) if kind == ErrorKind::Interrupted && *g == expected => {}
                            Got::Val(_) if kind == ErrorKind::UnexpectedEof => out.known("D24", || {
                                format!("{}: {} with an UnexpectedEof error at call {at} is read as {}", u.decls[d].name, hex_short(bytes), got.show())
                            }),
                            _ => out.violation(
                                d,
                                &format!("the stream {} in chunks {chunks:?} failing at call {at} with {kind:?} gives {}", hex_short(bytes), got.show()),
                            ),
                        }
                    }
                }
            }
        }
        // Writing.
        let units = u.decls[d].fields.iter().any(|f| codec::has_unit_array(u, &f.ty));
        for accept in [1, 2, 3, 7, 8, 9, usize::MAX] {
            let mut w = Sink::new(accept);
            let r = catch_unwind(AssertUnwindSafe(|| (t[d].enc)(&v, &mut w).1));
            out.add("schedules", 1);
            out.add("stream_calls", w.calls as u64);
            match r {
                Ok(Ok(())) if w.out == bytes || (units && w.out == codec::encode(u, d, &v, UnitArrays::Documented)) => {}
                Ok(r) => out.violation(d, &format!("writing {} to a writer accepting {accept} bytes at a time gives {r:?} and {}", v.show(), hex_short(&w.out))),
                Err(p) => out.violation(d, &format!("writing {} panics: {}", v.show(), panic_text(&*p))),
            }
            let calls = w.calls.min(400);
            let full = w.out;
            for at in 0..calls {
                for fault in [Fault::Zero, Fault::Error(ErrorKind::Other), Fault::Error(ErrorKind::Interrupted), Fault::Error(ErrorKind::WouldBlock), Fault::Error(ErrorKind::UnexpectedEof)] {
                    let mut w = Sink::new(accept);
                    w.fail_at = Some((at, fault));
                    let r = catch_unwind(AssertUnwindSafe(|| (t[d].enc)(&v, &mut w).1));
                    out.add("faults", 1);
                    out.add("stream_calls", w.calls as u64);
                    match r {
                        Ok(Err(_)) if full.starts_with(&w.out) => {}
                        Ok(Ok(())) if w.out == full && (!w.failed || fault == Fault::Error(ErrorKind::Interrupted)) => {}
                        Ok(r) => out.violation(d, &format!("writing {} with {fault:?} at call {at} gives {r:?} and {}", v.show(), hex_short(&w.out))),
                        Err(p) => out.violation(d, &format!("writing {} with {fault:?} at call {at} panics: {}", v.show(), panic_text(&*p))),
                    }
                }
            }
        }
        if d % 7 == 6 {
            out.sample(format!("{}: {} ({})", u.decls[d].name, v.show(), hex_short(&bytes)));
        }
    }
}
