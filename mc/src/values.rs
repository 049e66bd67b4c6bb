//! Bounded enumeration of the values of a type, simplest first.
//!
//! Level 2 is the richest alphabet (every boundary of the encoding), level 1 a smaller one with one
//! value per class, level 0 the two or three most different values.
use crate::codec::{unzigzag, Val};
use crate::model::{ty_inhabited, Rule, Ty, Universe};
use std::collections::HashSet;

pub const BOUNDARIES: [u64; 8] = [
    128,
    16_512,
    2_113_664,
    270_549_120,
    34_630_287_488,
    4_432_676_798_592,
    567_382_630_219_904,
    72_624_976_668_147_840,
];

const HEAVY_DEPTH: usize = 4;

pub struct Values<'a> {
    pub u: &'a Universe,
    pub inhabited: Vec<bool>,
    /// The largest number of values for which products of alphabets are enumerated.
    pub product_limit: usize,
}

fn u64s(level: usize) -> Vec<u64> {
    match level {
        0 => vec![0, 300, u64::MAX],
        1 => {
            let mut v = vec![0, 1, 127];
            v.extend(BOUNDARIES);
            v.extend([567_382_630_219_903, u64::MAX]);
            v
        }
        _ => {
            let mut v = vec![0, 1, 2, 63, 64, 126, 127];
            for b in BOUNDARIES {
                v.extend([b - 1, b, b + 1, b + 0x35]);
            }
            v.extend([0xff, 0x100, 0xffff, 0x1_0000, u64::from(u32::MAX), 1 << 32]);
            v.extend([0x0102_0304_0506_0708, 1 << 63, (1 << 63) - 1, u64::MAX - 1, u64::MAX]);
            v
        }
    }
}

fn f64s(level: usize) -> Vec<u64> {
    match level {
        0 => vec![0, 1.5_f64.to_bits(), (-0.0_f64).to_bits()],
        _ => {
            let mut v = vec![
                0,
                (-0.0_f64).to_bits(),
                1.0_f64.to_bits(),
                (-1.5_f64).to_bits(),
                f64::INFINITY.to_bits(),
                f64::NAN.to_bits(),
                1,
            ];
            if level > 1 {
                v.extend([
                    f64::NEG_INFINITY.to_bits(),
                    f64::MAX.to_bits(),
                    f64::MIN.to_bits(),
                    f64::MIN_POSITIVE.to_bits(),
                    f64::EPSILON.to_bits(),
                    0.1_f64.to_bits(),
                    0x8000_0000_0000_0001,
                    0x0102_0304_0506_0708,
                    0x0100_0000_0000_0000,
                    0x0000_0000_0000_0080,
                ]);
            }
            v
        }
    }
}

fn byte_strings(level: usize) -> Vec<Vec<u8>> {
    let run = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<u8>>();
    let mut v = match level {
        0 => vec![vec![], vec![0x80, 0xff]],
        1 => vec![vec![], vec![0], run(7), run(8), run(9), run(127), run(128)],
        _ => {
            let mut v: Vec<Vec<u8>> = (0..=18).map(run).collect();
            v.extend([
                vec![0xff],
                vec![0x80],
                vec![1],
                vec![0; 8],
                vec![0xff; 9],
                run(126),
                run(127),
                run(128),
                run(129),
                run(16_511),
                run(16_512),
            ]);
            v
        }
    };
    v.dedup();
    v
}

fn strings(level: usize) -> Vec<String> {
    let mut v: Vec<String> = match level {
        0 => vec!["".into(), "é\u{0}x".into()],
        1 => vec!["".into(), "a".into(), "1234567".into(), "12345678".into(), "日本語".into(), "\u{10ffff}".into(), "x".repeat(128)],
        _ => {
            let mut v: Vec<String> = (0..=17).map(|n| "abcdefghijklmnopqrstuvwxyz"[..n].to_owned()).collect();
            v.extend([
                "\u{0}".to_owned(),
                "\u{7f}".to_owned(),
                "\u{80}".to_owned(),
                "é".to_owned(),
                "e\u{301}".to_owned(),
                "\u{7ff}\u{800}\u{ffff}\u{10000}".to_owned(),
                "😀👩‍👩‍👧‍👦".to_owned(),
                "日本".to_owned(),
                "日本語ab".to_owned(),
                "\r\n\t\"\\'".to_owned(),
                "x\u{feff}y".to_owned(),
                "\u{d7ff}\u{e000}".to_owned(),
                "y".repeat(127),
                "y".repeat(128),
                "é".repeat(64),
                "z".repeat(16_512),
            ]);
            v
        }
    };
    v.dedup();
    v
}

impl<'a> Values<'a> {
    pub fn new(u: &'a Universe) -> Values<'a> {
        Values { u, inhabited: u.inhabited(), product_limit: 2500 }
    }

    pub fn of(&self, ty: &Ty, level: usize) -> Vec<Val> {
        match ty {
            Ty::Unit => vec![Val::Unit],
            Ty::F64 => f64s(level).into_iter().map(Val::F64).collect(),
            Ty::U64 => u64s(level).into_iter().map(Val::U64).collect(),
            Ty::S64 => u64s(level).into_iter().map(|n| Val::S64(unzigzag(n))).collect(),
            Ty::Bool => vec![Val::Bool(false), Val::Bool(true)],
            Ty::Bytes => byte_strings(level).into_iter().map(Val::Bytes).collect(),
            Ty::Str => strings(level).into_iter().map(Val::Str).collect(),
            Ty::Arr(t) if **t == Ty::Unit => match level {
                0 => vec![0, 3],
                1 => vec![0, 1, 8, 128],
                _ => vec![0, 1, 2, 7, 8, 9, 127, 128, 129, 16_511, 16_512, 300_000],
            }
            .into_iter()
            .map(Val::Units)
            .collect(),
            Ty::Arr(t) => self.arrays(t, level),
            // A nested message has a smaller alphabet.
            Ty::Ref(d) => self.messages(*d, level.min(1), 2),
        }
    }

    fn arrays(&self, t: &Ty, level: usize) -> Vec<Val> {
        let mut out = vec![Val::Arr(vec![])];
        if !ty_inhabited(t, &self.inhabited) {
            return out;
        }
        let small = self.of(t, 0);
        if small.is_empty() {
            return out;
        }
        let last = small.last().unwrap().clone();
        if level == 0 {
            out.push(Val::Arr(vec![last, small[0].clone()]));
            return out;
        }
        for v in self.of(t, level - 1) {
            out.push(Val::Arr(vec![v]));
        }
        let small: Vec<Val> = small.into_iter().take(4).collect();
        for a in &small {
            for b in &small {
                out.push(Val::Arr(vec![a.clone(), b.clone()]));
            }
        }
        // Elements whose sizes take more bytes to write.
        for n in if level > 1 { &[128, 16_512][..] } else { &[128][..] } {
            if let Some(v) = self.heavy(t, *n, HEAVY_DEPTH) {
                out.push(Val::Arr(vec![v.clone()]));
                out.push(Val::Arr(vec![small[0].clone(), v, small[small.len() - 1].clone()]));
            }
        }
        let scalar = !matches!(t, Ty::Arr(_) | Ty::Ref(_));
        let lengths: &[usize] = match (level, scalar) {
            (1, true) => &[3, 7, 8, 9],
            (1, false) => &[3, 8],
            (_, true) => &[3, 4, 5, 6, 7, 8, 9, 16, 63, 64, 127, 128, 129],
            _ => &[3, 4, 7, 8, 9],
        };
        for n in lengths {
            out.push(Val::Arr(vec![small[0].clone(); *n]));
            out.push(Val::Arr((0..*n).map(|i| small[i % small.len()].clone()).collect()));
        }
        dedup(out)
    }

    /// The messages a writer can write. `chain` bounds the length of chains of fallbacks.
    pub fn messages(&self, decl: usize, level: usize, chain: usize) -> Vec<Val> {
        if !self.inhabited[decl] {
            return vec![];
        }
        let d = &self.u.decls[decl];
        if d.choice {
            let mut out = vec![];
            let mut rich = vec![];
            for (pos, f) in d.fields.iter().enumerate() {
                if !ty_inhabited(&f.ty, &self.inhabited) {
                    continue;
                }
                let payload_level = if d.fields.len() > 40 { level.saturating_sub(1) } else { level };
                let mut payloads = self.of(&f.ty, payload_level.min(if level == 2 { 2 } else { 0 }));
                if level == 0 && payloads.len() > 2 {
                    payloads = vec![payloads[0].clone(), payloads.last().unwrap().clone()];
                }
                if f.rule == Rule::Req {
                    for p in payloads {
                        out.push(Val::Choice(pos, Box::new(p), None));
                    }
                } else if chain > 0 {
                    let fallbacks = if d.fields.len() > 12 || level == 0 {
                        self.first_message(decl).into_iter().collect()
                    } else {
                        self.messages(decl, 0, chain - 1)
                    };
                    for (i, p) in payloads.iter().enumerate() {
                        for (j, fb) in fallbacks.iter().enumerate() {
                            if level == 2 || i == 0 || j == 0 {
                                rich.push(Val::Choice(pos, Box::new(p.clone()), Some(Box::new(fb.clone()))));
                            }
                        }
                    }
                }
            }
            out.extend(rich);
            if level > 0 && d.fields.len() <= 40 {
                out.extend(self.heavy_messages(decl, 128));
            }
            return dedup(out);
        }
        let options: Vec<[Vec<Option<Val>>; 3]> = d
            .fields
            .iter()
            .map(|f| [self.field_options(f.rule, &f.ty, 0), self.field_options(f.rule, &f.ty, 1), vec![]])
            .collect();
        let base: Vec<Option<Val>> = options.iter().map(|o| o[0][0].clone()).collect();
        let full: Vec<Option<Val>> = options.iter().map(|o| o[0].last().unwrap().clone()).collect();
        let mut out = vec![base.clone(), full.clone()];
        if level == 0 {
            if d.fields.len() > 1 {
                // Alternating.
                out.push(options.iter().enumerate().map(|(i, o)| if i % 2 == 0 { o[0].last().unwrap().clone() } else { o[0][0].clone() }).collect());
            }
            return dedup(out.into_iter().map(Val::Struct).collect());
        }
        let top: Vec<Vec<Option<Val>>> = d
            .fields
            .iter()
            .map(|f| {
                let l = if d.fields.len() > 40 { 1 } else { level };
                self.field_options(f.rule, &f.ty, if level == 1 { 0.max(l - 1) } else { l })
            })
            .collect();
        let product = |opts: &[Vec<Option<Val>>]| opts.iter().fold(1_usize, |a, o| a.saturating_mul(o.len()));
        let l1: Vec<Vec<Option<Val>>> = options.iter().map(|o| o[1].clone()).collect();
        let l0: Vec<Vec<Option<Val>>> = options.iter().map(|o| o[0].clone()).collect();
        let limit = if level == 2 { self.product_limit } else { 64 };
        if product(&top) <= limit {
            cartesian(&top, &mut out);
        } else {
            // One deviation from the base and from the full message, richly.
            for (i, opts) in top.iter().enumerate() {
                for o in opts {
                    let mut v = base.clone();
                    v[i] = o.clone();
                    out.push(v);
                    if level == 2 && d.fields.len() <= 40 {
                        let mut v = full.clone();
                        v[i] = o.clone();
                        out.push(v);
                    }
                }
            }
            if level == 2 {
                if product(&l1) <= limit {
                    cartesian(&l1, &mut out);
                } else if product(&l0) <= limit {
                    cartesian(&l0, &mut out);
                } else if d.fields.len() <= 40 {
                    // Two deviations.
                    for i in 0..l0.len() {
                        for j in 0..i {
                            for a in &l0[i] {
                                for b in &l0[j] {
                                    let mut v = base.clone();
                                    v[i] = a.clone();
                                    v[j] = b.clone();
                                    out.push(v);
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut out: Vec<Val> = out.into_iter().map(Val::Struct).collect();
        if d.fields.len() <= 40 {
            out.extend(self.heavy_messages(decl, 128));
            if level > 1 {
                out.extend(self.heavy_messages(decl, 16_512).into_iter().take(1));
            }
        }
        dedup(out)
    }

    /// A value whose encoding takes at least that many bytes, not many more if possible. `depth`
    /// bounds the nesting, as types can be recursive.
    fn heavy(&self, ty: &Ty, n: usize, depth: usize) -> Option<Val> {
        if depth == 0 || !ty_inhabited(ty, &self.inhabited) {
            return None;
        }
        Some(match ty {
            Ty::Str => Val::Str("h".repeat(n)),
            Ty::Bytes => Val::Bytes((0..n).map(|i| (i % 253) as u8).collect()),
            Ty::Arr(t) => match &**t {
                Ty::Unit => return None,
                Ty::F64 => Val::Arr(vec![Val::F64(1.25_f64.to_bits()); n.div_ceil(8)]),
                Ty::U64 => Val::Arr(vec![Val::U64(1); n]),
                Ty::S64 => Val::Arr(vec![Val::S64(1); n]),
                Ty::Bool => Val::Arr(vec![Val::Bool(true); n]),
                t if !ty_inhabited(t, &self.inhabited) => return None,
                t => match self.heavy(t, n, depth - 1) {
                    Some(v) => Val::Arr(vec![v]),
                    None if n <= 128 => Val::Arr(vec![self.first(t); n]),
                    None => return None,
                },
            },
            Ty::Ref(d) => {
                let first = self.first_message(*d)?;
                return (0..self.u.decls[*d].fields.len()).find_map(|i| self.heavy_message(*d, &first, i, n, depth - 1));
            }
            _ => return None,
        })
    }
    fn heavy_message(&self, decl: usize, first: &Val, i: usize, n: usize, depth: usize) -> Option<Val> {
        let f = &self.u.decls[decl].fields[i];
        let v = self.heavy(&f.ty, n, depth)?;
        Some(match first {
            Val::Struct(base) => {
                let mut base = base.clone();
                base[i] = Some(v);
                Val::Struct(base)
            }
            first => Val::Choice(i, Box::new(v), (f.rule != Rule::Req).then(|| Box::new(first.clone()))),
        })
    }
    /// Messages which take at least that many bytes, in each field which can.
    fn heavy_messages(&self, decl: usize, n: usize) -> Vec<Val> {
        let Some(first) = self.first_message(decl) else {
            return vec![];
        };
        (0..self.u.decls[decl].fields.len()).filter_map(|i| self.heavy_message(decl, &first, i, n, HEAVY_DEPTH)).collect()
    }

    /// Messages whose parts have sizes which take four bytes to write, and long arrays.
    pub fn huge_messages(&self, decl: usize) -> Vec<Val> {
        let mut out = self.heavy_messages(decl, 2_113_663);
        out.extend(self.heavy_messages(decl, 2_113_664));
        let Some(first) = self.first_message(decl) else { return out };
        for (i, f) in self.u.decls[decl].fields.iter().enumerate() {
            if let Ty::Arr(t) = &f.ty {
                if **t == Ty::Unit || !ty_inhabited(t, &self.inhabited) {
                    continue;
                }
                let few = self.of(t, 1);
                for n in [300, 5000, 70_000] {
                    let v = Val::Arr((0..n).map(|k| few[k % few.len()].clone()).collect());
                    out.push(match &first {
                        Val::Struct(base) => {
                            let mut base = base.clone();
                            base[i] = Some(v);
                            Val::Struct(base)
                        }
                        first => Val::Choice(i, Box::new(v), (f.rule != Rule::Req).then(|| Box::new(first.clone()))),
                    });
                }
            }
        }
        out
    }

    /// The simplest message.
    pub fn first_message(&self, decl: usize) -> Option<Val> {
        if !self.inhabited[decl] {
            return None;
        }
        let d = &self.u.decls[decl];
        if d.choice {
            d.fields
                .iter()
                .position(|f| f.rule == Rule::Req && ty_inhabited(&f.ty, &self.inhabited))
                .map(|pos| Val::Choice(pos, Box::new(self.first(&d.fields[pos].ty)), None))
        } else {
            Some(Val::Struct(
                d.fields.iter().map(|f| if f.rule == Rule::Opt { None } else { Some(self.first(&f.ty)) }).collect(),
            ))
        }
    }
    fn first(&self, ty: &Ty) -> Val {
        match ty {
            Ty::Ref(d) => self.first_message(*d).unwrap(),
            Ty::Arr(t) if **t != Ty::Unit => Val::Arr(vec![]),
            t => self.of(t, 0)[0].clone(),
        }
    }

    fn field_options(&self, rule: Rule, ty: &Ty, level: usize) -> Vec<Option<Val>> {
        let mut out = vec![];
        if rule == Rule::Opt {
            out.push(None);
        }
        if ty_inhabited(ty, &self.inhabited) {
            out.extend(self.of(ty, level).into_iter().map(Some));
        }
        out
    }
}

fn cartesian(opts: &[Vec<Option<Val>>], out: &mut Vec<Vec<Option<Val>>>) {
    let mut idx = vec![0; opts.len()];
    loop {
        out.push(idx.iter().zip(opts).map(|(i, o)| o[*i].clone()).collect());
        let mut k = opts.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < opts[k].len() {
                break;
            }
            idx[k] = 0;
        }
    }
}

pub fn dedup(vals: Vec<Val>) -> Vec<Val> {
    let mut seen = HashSet::new();
    vals.into_iter().filter(|v| seen.insert(v.clone())).collect()
}
