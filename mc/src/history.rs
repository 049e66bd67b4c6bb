//! C20: calls of generated code depend on their arguments alone. Sequences of calls with every
//! succession of a few calls from an alphabet, and calls nested in others at every operation on a
//! stream.
use crate::codec::{self, UnitArrays, Val};
use crate::engine::{self, Entry, Fault, Got, Out, Script, Sink};
use crate::model::Universe;
use crate::util::hex_short;
use crate::values::Values;
use std::io::{BufRead, Read, Write};

/// A cyclic sequence of the numbers below `k` in which every sequence of length `n` occurs (de
/// Bruijn), continued such that it occurs without wrapping around.
pub fn every_succession(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            db(t + 1, t, k, n, a, out);
        }
    }
    let mut out = vec![];
    if k > 0 {
        db(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
        for i in 0..n - 1 {
            out.push(out[i]);
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Enc(Val),
    /// To a writer which fails at a call.
    EncFail(Val, usize),
    Dec(Vec<u8>),
    /// From a reader which fails at a call.
    DecFail(Vec<u8>, usize),
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Enc(v) => format!("serialize {}", crate::util::clip(&v.show(), 200)),
            Op::EncFail(v, at) => format!("serialize {} to a writer which fails at call {at}", crate::util::clip(&v.show(), 200)),
            Op::Dec(m) => format!("deserialize {}", hex_short(m)),
            Op::DecFail(m, at) => format!("deserialize {} from a reader which fails at call {at}", hex_short(m)),
        }
    }
}

/// A few values of a type: the ones with the shortest and the longest messages, one in between.
pub fn picked_values(u: &Universe, d: usize) -> Vec<Val> {
    let mut vs: Vec<(usize, Val)> = Values::new(u)
        .messages(d, 1, 2)
        .into_iter()
        .map(|v| (codec::encode(u, d, &v, UnitArrays::SizePrefixed).len(), v))
        .filter(|(n, _)| *n <= 4000)
        .collect();
    vs.sort_by_key(|(n, _)| *n);
    vs.dedup();
    let n = vs.len();
    let mut at = vec![];
    if n > 0 {
        at.extend([0, n / 2, n - 1]);
    }
    at.dedup();
    at.into_iter().map(|i| vs[i].1.clone()).collect()
}

/// The calls of a type from which sequences are made.
pub fn alphabet(u: &Universe, d: usize) -> Vec<Op> {
    let vs = picked_values(u, d);
    let mut out = vec![];
    let add = |op: Op, out: &mut Vec<Op>| {
        if !out.contains(&op) {
            out.push(op);
        }
    };
    for v in &vs {
        add(Op::Enc(v.clone()), &mut out);
    }
    let ms: Vec<Vec<u8>> = vs.iter().map(|v| codec::encode(u, d, v, UnitArrays::SizePrefixed)).collect();
    for m in &ms {
        add(Op::Dec(m.clone()), &mut out);
    }
    if let (Some(v), Some(m)) = (vs.last(), ms.last()) {
        // Calls which fail on the way.
        add(Op::EncFail(v.clone(), 1), &mut out);
        add(Op::DecFail(m.clone(), 2), &mut out);
        if m.len() > 1 {
            let cut = m[..m.len() - 1].to_vec();
            if crate::explore::expect(u, d, &cut) == crate::explore::Expect::Fine {
                add(Op::Dec(cut), &mut out);
            }
        }
    }
    if u.decls[d].fields.iter().any(|f| f.rule == crate::model::Rule::Req) || u.decls[d].choice {
        add(Op::Dec(vec![]), &mut out);
    }
    out
}

struct Nest<'a, T> {
    inner: T,
    calls: usize,
    at: usize,
    hook: &'a mut dyn FnMut(),
}
impl<T> Nest<'_, T> {
    fn tick(&mut self) {
        if self.calls == self.at {
            (self.hook)();
        }
        self.calls += 1;
    }
}
impl<T: Write> Write for Nest<'_, T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
impl<T: Read> Read for Nest<'_, T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.read(b)
    }
}
impl<T: BufRead> BufRead for Nest<'_, T> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.tick();
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n);
    }
}

fn got_text(g: &Got) -> String {
    match g {
        Got::Val(v) => format!("value {}", v.show()),
        other => other.show(),
    }
}

/// Make a call, with something else in the middle of it, and say what came out of it and how many
/// operations on the stream there were.
fn call(t: &[Entry], d: usize, op: &Op, at: usize, hook: &mut dyn FnMut()) -> (String, usize) {
    match op {
        Op::Enc(v) | Op::EncFail(v, _) => {
            // Few bytes at a time, so that there are many calls.
            let mut sink = Sink::new(if matches!(op, Op::Enc(_)) { usize::MAX } else { 3 });
            if let Op::EncFail(_, at) = op {
                sink.fail_at = Some((*at, Fault::Error(std::io::ErrorKind::Other)));
            }
            let mut w = Nest { inner: sink, calls: 0, at, hook };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t[d].enc)(v, &mut w)));
            let text = match r {
                Ok((size, r)) => format!("size {size}, {:?}, {:x?}", r.map_err(|e| e.kind()), w.inner.out),
                Err(p) => format!("PANIC {}", engine::panic_text(&*p)),
            };
            (text, w.calls)
        }
        Op::Dec(m) | Op::DecFail(m, _) => {
            let mut s = Script::new(m, &[usize::MAX]);
            if let Op::DecFail(_, at) = op {
                s.fail_at = Some((*at, std::io::ErrorKind::Other));
            }
            let mut r = Nest { inner: s, calls: 0, at, hook };
            let got = engine::decode(&t[d], &mut r);
            (got_text(&got), r.calls)
        }
    }
}

/// What a call should give, as far as the reference knows.
fn right(u: &Universe, d: usize, op: &Op, text: &str) -> bool {
    match op {
        Op::Enc(v) => [UnitArrays::Documented, UnitArrays::SizePrefixed].iter().any(|ua| {
            let b = codec::encode(u, d, v, *ua);
            text == format!("size {}, {:?}, {b:x?}", b.len(), Ok::<(), std::io::ErrorKind>(()))
        }),
        Op::Dec(m) => match codec::get_message(u, d, m) {
            Ok(v) => text == format!("value {}", v.show()),
            Err(codec::Bad::Missing) => text.starts_with("error"),
            Err(_) => true,
        },
        _ => true,
    }
}

pub fn history(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    let mine: Vec<(usize, Op)> = alphabet(u, d).into_iter().map(|o| (d, o)).collect();
    walk(u, t, &mine, if thorough && mine.len() <= 6 { 4 } else { 3 }, out);
    nested(t, &mine, out);
    if d + 1 == u.decls.len() {
        // Calls of different types.
        let mut all: Vec<(usize, Op)> = vec![];
        for e in 0..u.decls.len() {
            let mut ops = alphabet(u, e);
            if !thorough {
                ops = ops.into_iter().step_by(3).collect();
            }
            all.extend(ops.into_iter().map(|o| (e, o)));
        }
        walk(u, t, &all, 2, out);
        let few: Vec<(usize, Op)> = all.into_iter().filter(|(_, o)| matches!(o, Op::Enc(_) | Op::Dec(_))).step_by(if thorough { 3 } else { 7 }).collect();
        nested(t, &few, out);
    }
}

/// Every succession of calls.
fn walk(u: &Universe, t: &[Entry], ops: &[(usize, Op)], length: usize, out: &mut Out) {
    let mut first: Vec<Option<String>> = vec![None; ops.len()];
    let mut before: Vec<usize> = vec![];
    for i in every_succession(ops.len(), length) {
        let (d, op) = &ops[i];
        let (text, _) = call(t, *d, op, usize::MAX, &mut || {});
        out.add("calls", 1);
        out.outcome(text.as_bytes());
        let told = || {
            let earlier: Vec<String> = before.iter().rev().take(length).rev().map(|i| format!("{}: {}", u.decls[ops[*i].0].name, ops[*i].1.show())).collect();
            format!("after [{}]", earlier.join("; "))
        };
        if !right(u, *d, op, &text) {
            out.violation(*d, &format!("{} gives {} {}", op.show(), crate::util::clip(&text, 300), told()));
        } else if let Some(f) = &first[i] {
            if *f != text {
                out.violation(*d, &format!("{} gives {} {} but {} before", op.show(), crate::util::clip(&text, 300), told(), crate::util::clip(f, 300)));
            }
        } else {
            first[i] = Some(text);
        }
        before.push(i);
        if before.len() > 64 {
            before.drain(..32);
        }
    }
    out.add("successions", (ops.len() as u64).pow(length as u32));
}

/// Every call in the middle of every call, at every operation on the stream.
fn nested(t: &[Entry], ops: &[(usize, Op)], out: &mut Out) {
    let alone: Vec<(String, usize)> = ops.iter().map(|(d, op)| call(t, *d, op, usize::MAX, &mut || {})).collect();
    for (i, (d, op)) in ops.iter().enumerate() {
        let points = alone[i].1.min(40);
        for (j, (e, other)) in ops.iter().enumerate() {
            for at in 0..points {
                let mut inner = String::new();
                let (text, _) = call(t, *d, op, at, &mut || inner = call(t, *e, other, usize::MAX, &mut || {}).0);
                out.add("nestings", 1);
                if text != alone[i].0 {
                    out.violation(*d, &format!("{} gives {} instead of {} with, at its call {at}, {}", op.show(), crate::util::clip(&text, 300), crate::util::clip(&alone[i].0, 300), other.show()));
                }
                if inner != alone[j].0 {
                    out.violation(*e, &format!("{} gives {} instead of {} within, at its call {at}, {}", other.show(), crate::util::clip(&inner, 300), crate::util::clip(&alone[j].0, 300), op.show()));
                }
            }
        }
    }
}
