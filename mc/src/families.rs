//! The bounded families of schemas on which the generated code is explored.
use mc::model::{field, Field, Rule, Ty, Universe, RULES, SCALARS};

/// Field names in various conventions.
const FIELD_NAMES: &[&str] = &[
    "a", "beta_gamma", "deltaEpsilon", "Zeta", "x1", "eta_2", "type", "iota__kappa", "message", "payload", "size", "index",
    "self", "value_in", "lambda", "reader", "writer", "atlas", "fallback", "offset", "mu_nu_xi", "dataView", "HTTPCode",
];

pub fn name(i: usize) -> String {
    let base = FIELD_NAMES[i % FIELD_NAMES.len()];
    if i < FIELD_NAMES.len() {
        base.to_owned()
    } else {
        format!("{base}_n{i}")
    }
}

const FILES: &[&str] = &["main", "side", "sub/inner", "sub/deep/leaf", "other/leaf", "sub/deep"];

/// A universe with some types to refer to, in several files.
pub struct Pack {
    pub u: Universe,
    /// Types to refer to: a struct, a choice, an empty struct, a nested struct, an enumeration.
    pub refs: Vec<Ty>,
    count: usize,
}

impl Pack {
    pub fn new() -> Pack {
        let mut u = Universe::new(FILES[0]);
        for f in &FILES[1..] {
            u.file(f);
        }
        let pair = u.add(1, "Pair", false, vec![field("a", Rule::Req, Ty::U64, 0), field("b", Rule::Opt, Ty::Str, 1)]);
        let pick = u.add(
            2,
            "Pick",
            true,
            vec![field("x", Rule::Req, Ty::Unit, 0), field("y", Rule::Opt, Ty::U64, 1), field("z", Rule::Req, Ty::Bytes, 2), field("w", Rule::Asym, Ty::S64, 3)],
        );
        let empty = u.add(3, "Nil", false, vec![]);
        let nested = u.add(
            4,
            "Pair",
            false,
            vec![field("p", Rule::Asym, Ty::Ref(pair), 0), field("q", Rule::Opt, Ty::Ref(pick).arr(), 1)],
        );
        let color = u.add(
            0,
            "Color",
            true,
            vec![field("red", Rule::Req, Ty::Unit, 0), field("green", Rule::Req, Ty::Unit, 1), field("blue", Rule::Req, Ty::Unit, 2)],
        );
        let refs = [pair, pick, empty, nested, color].into_iter().map(Ty::Ref).collect();
        Pack { u, refs, count: 0 }
    }
    /// Add a type, in the next file.
    pub fn add(&mut self, choice: bool, fields: Vec<Field>) -> usize {
        self.count += 1;
        let file = self.count % FILES.len();
        let n = self.u.decls.len();
        let name = match n % 3 {
            0 => format!("Foo{n}"),
            1 => format!("BarBaz{n}"),
            _ => format!("qux_{n}_t"),
        };
        self.u.add(file, &name, choice, fields)
    }
}

/// A way to add one type (and what it needs) to a pack.
pub type Spec = Box<dyn Fn(&mut Pack) -> usize + Sync + Send>;

fn base_ty(p: &Pack, i: usize) -> Ty {
    if i < SCALARS.len() {
        SCALARS[i].clone()
    } else {
        p.refs[(i - SCALARS.len()) % p.refs.len()].clone()
    }
}

const BASES: usize = 12;

/// Make the field of a struct or choice such that the type has values.
fn single(p: &mut Pack, choice: bool, rule: Rule, ty: Ty) -> usize {
    let n = p.u.decls.len();
    let mut fields = vec![field(&name(n), rule, ty, 0)];
    if choice && rule != Rule::Req {
        fields.push(field("zzz", Rule::Req, Ty::Unit, 1));
    }
    p.add(choice, fields)
}

/// S1: every kind of type with one field of every rule, type and depth of arrays.
pub fn singles(depths: std::ops::RangeInclusive<usize>) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for depth in depths {
        for base in 0..BASES {
            for choice in [false, true] {
                for rule in RULES {
                    out.push(Box::new(move |p| {
                        let ty = base_ty(p, base).arr_n(depth);
                        single(p, choice, rule, ty)
                    }));
                }
            }
        }
    }
    out
}

/// S2: every pair of fields over rules and some types.
pub fn pairs() -> Vec<Spec> {
    let bases = [0_usize, 2, 6, 7, 8];
    let mut out: Vec<Spec> = vec![];
    for choice in [false, true] {
        for r1 in RULES {
            for r2 in RULES {
                for b1 in bases {
                    for b2 in bases {
                        if choice && r1 != Rule::Req && r2 != Rule::Req {
                            continue;
                        }
                        out.push(Box::new(move |p| {
                            let n = p.u.decls.len();
                            let fields =
                                vec![field(&name(n), r1, base_ty(p, b1), 0), field(&name(n + 1), r2, base_ty(p, b2), 1)];
                            p.add(choice, fields)
                        }));
                    }
                }
            }
        }
    }
    out
}

/// S2': every pair of types, as they are or in arrays, with rules which vary along.
pub fn type_pairs(all: bool) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for choice in [false, true] {
        for b1 in 0..BASES {
            for b2 in 0..BASES {
                for turn in 0..if all { 4 } else { 1 } {
                    let k = out.len() + b1 + usize::from(choice) + turn;
                    out.push(Box::new(move |p| {
                        let n = p.u.decls.len();
                        let first = if choice { Rule::Req } else { RULES[k % 3] };
                        let mut fields = vec![
                            field(&name(n), first, base_ty(p, b1).arr_n(usize::from((k + turn) % 4 == 1)), 0),
                            field(&name(n + 1), RULES[(k / 3) % 3], base_ty(p, b2).arr_n(usize::from((k + turn) % 4 == 2)), 1),
                        ];
                        if k % 2 == 1 {
                            fields.swap(0, 1);
                        }
                        p.add(choice, fields)
                    }));
                }
            }
        }
    }
    out
}

/// S3: three fields of every combination of rules, in every order of indices.
pub fn triples() -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    let perms = [[0_u64, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for choice in [false, true] {
        for r1 in RULES {
            for r2 in RULES {
                for r3 in RULES {
                    if choice && r1 != Rule::Req && r2 != Rule::Req && r3 != Rule::Req {
                        continue;
                    }
                    let k = out.len();
                    out.push(Box::new(move |p| {
                        let n = p.u.decls.len();
                        let perm = perms[k % 6];
                        // Leave a gap of deleted fields for some.
                        let gap = if k % 4 == 3 { 3 } else { 0 };
                        let fields = [r1, r2, r3]
                            .iter()
                            .enumerate()
                            .map(|(i, r)| field(&name(n + i), *r, base_ty(p, [2, 6, 7, 4, 8, 1, 0][(k + 3 * i) % 7]), perm[i] + if perm[i] > 0 { gap } else { 0 }))
                            .collect();
                        p.add(choice, fields)
                    }));
                }
            }
        }
    }
    out
}

/// S3': structs and choices which contain a type with three fields of every combination of rules, and
/// have fields with the indices which the contained type doesn't know.
pub fn holders(step: usize) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for (k, inner) in triples().into_iter().enumerate().filter(|(k, _)| k % step == 0) {
        out.push(Box::new(move |p| {
            let t = inner(p);
            let next = p.u.decls[t].fields.iter().map(|f| f.idx + 1).max().unwrap();
            let rule = RULES[(k / step) % 3];
            let fields = vec![
                field("held", rule, Ty::Ref(t), 0),
                field("list", Rule::Opt, Ty::Ref(t).arr(), 1),
                field("next", Rule::Opt, [Ty::Str, Ty::U64, Ty::Bytes][k % 3].clone(), next),
                field("after", if k % 4 == 0 { Rule::Req } else { Rule::Opt }, [Ty::U64, Ty::F64][k % 2].clone(), next + 1),
            ];
            p.add(k % 5 == 1 && rule == Rule::Req, fields)
        }));
    }
    out
}

/// S4: many fields.
pub fn wide(sizes: &[usize]) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for n in sizes.iter().copied() {
        for choice in [false, true] {
            out.push(Box::new(move |p| {
                let fields = (0..n)
                    .map(|i| {
                        let rule = if choice && i == 0 { Rule::Req } else { RULES[(i + i / 3) % 3] };
                        let depth = if i % 17 == 5 { 1 } else { 0 };
                        field(&name(i), rule, base_ty(p, (i * 5 + i / 12) % BASES).arr_n(depth), i as u64)
                    })
                    .collect();
                p.add(choice, fields)
            }));
        }
    }
    out
}

/// S5: large indices, next to the boundaries of the encoding of tags.
pub fn indices(list: &[u64]) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for (k, idx) in list.iter().copied().enumerate() {
        for choice in [false, true] {
            out.push(Box::new(move |p| {
                let mut fields = vec![
                    field("first", Rule::Req, base_ty(p, (k + usize::from(choice)) % SCALARS.len()), idx),
                    field("second", RULES[k % 3], base_ty(p, (k + 3) % SCALARS.len()), idx + 1),
                ];
                if k % 2 == 1 {
                    fields.swap(0, 1);
                }
                p.add(choice, fields)
            }));
        }
    }
    out
}

/// S6: deep nesting of structs and choices, with a rule per level.
pub fn deep(depths: &[usize]) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for depth in depths.iter().copied() {
        for pattern in 0..4_usize {
            out.push(Box::new(move |p| {
                let mut inner = p.add(false, vec![field("leaf", Rule::Req, Ty::U64, 0), field("text", Rule::Opt, Ty::Str, 1)]);
                for level in 0..depth {
                    let choice = match pattern {
                        0 => false,
                        1 => true,
                        2 => level % 2 == 0,
                        _ => level % 3 == 0,
                    };
                    let arr = pattern == 3 && level % 2 == 1;
                    let ty = if arr { Ty::Ref(inner).arr() } else { Ty::Ref(inner) };
                    let rule = RULES[(level + pattern) % 3];
                    inner = single(p, choice, rule, ty);
                }
                inner
            }));
        }
    }
    out
}

/// S7: empty types, and fields of such types.
pub fn degenerate() -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    out.push(Box::new(|p| p.add(false, vec![])));
    out.push(Box::new(|p| p.add(true, vec![])));
    // Only optional or asymmetric fields in a choice: no values.
    out.push(Box::new(|p| p.add(true, vec![field("a", Rule::Opt, Ty::U64, 0)])));
    out.push(Box::new(|p| p.add(true, vec![field("a", Rule::Asym, Ty::U64, 0), field("b", Rule::Opt, Ty::Unit, 1)])));
    for rule in RULES {
        for depth in 0..=2 {
            out.push(Box::new(move |p| {
                let void = p.add(true, vec![]);
                let mut fields = vec![field("v", rule, Ty::Ref(void).arr_n(depth), 0), field("k", Rule::Req, Ty::Bool, 1)];
                if depth == 1 {
                    fields.swap(0, 1);
                }
                p.add(depth == 2, fields)
            }));
        }
    }
    // Only deleted fields.
    for choice in [false, true] {
        out.push(Box::new(move |p| {
            let i = p.add(choice, vec![]);
            p.u.decls[i].deleted = vec![0, 1, 2];
            i
        }));
        out.push(Box::new(move |p| {
            let i = p.add(choice, vec![field("only", Rule::Req, Ty::Str, 2)]);
            p.u.decls[i].deleted = vec![0, 1, 3, 4];
            i
        }));
    }
    out
}

/// S8: the same types between every pair of files (so that references go up, down and sideways).
pub fn places() -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for from in 0..FILES.len() {
        for to in 0..FILES.len() {
            out.push(Box::new(move |p| {
                let n = p.u.decls.len();
                let t = p.u.add(to, &format!("Target{n}"), from % 2 == 0, vec![field("x", Rule::Req, Ty::S64, 0)]);
                let u = p.u.add(from, &format!("Direct{n}"), false, vec![field("one", Rule::Req, Ty::Ref(t), 0), field("many", Rule::Opt, Ty::Ref(t).arr(), 1), field("most", Rule::Asym, Ty::Ref(t).arr_n(2), 2)]);
                p.u.add(from, &format!("Via{n}"), true, vec![field("one", Rule::Opt, Ty::Ref(u), 0), field("many", Rule::Req, Ty::Ref(u).arr(), 1)])
            }));
        }
    }
    out
}

/// All combinations of rules for so many fields, as structs and as choices, with types, names and indices which vary along.
pub fn combinations(sizes: std::ops::RangeInclusive<usize>) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    for n in sizes {
        for code in 0..3_usize.pow(u32::try_from(n).unwrap()) {
            for choice in [false, true] {
                for turn in 0..if n <= 4 { 3 } else { 1 } {
                    out.push(Box::new(move |p| {
                        let types = [Ty::Unit, Ty::U64, p.refs[0].clone(), Ty::Unit, Ty::Bytes, p.refs[1].clone(), Ty::Str.arr()];
                        let mut fields = vec![];
                        let mut c = code;
                        for k in 0..n {
                            // Indices: upwards, downwards, or with gaps.
                            let idx = match turn {
                                0 => k,
                                1 => n - 1 - k,
                                _ => 31 * (k + 1) - code % 7,
                            };
                            let ty = types[(k * (turn + 1) + code + turn) % types.len()].clone();
                            fields.push(field(&name(k * (turn + 1) + turn), RULES[c % 3], ty, idx as u64));
                            c /= 3;
                        }
                        p.add(choice, fields)
                    }));
                }
            }
        }
    }
    out
}

/// Distribute types over universes, about `per` of them in each.
pub fn pack(specs: &[Spec], per: usize) -> Vec<Universe> {
    let count = specs.len().div_ceil(per).max(1);
    (0..count)
        .map(|k| {
            let mut p = Pack::new();
            for s in specs.iter().skip(k).step_by(count) {
                s(&mut p);
            }
            p.u
        })
        .collect()
}

/// The family for the wire format checks.
pub fn standard(thorough: bool) -> Vec<Universe> {
    let mut specs = vec![];
    specs.extend(singles(0..=if thorough { 4 } else { 3 }));
    specs.extend(pairs());
    specs.extend(type_pairs(thorough));
    specs.extend(triples());
    specs.extend(holders(1));
    if thorough {
        specs.extend(wide(&[4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300]));
        specs.extend(indices(&[2, 3, 4, 7, 8, 15, 16, 30, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4126, 4127, 4128, 4129, 8191, 16_383, 16_384, 32_767, 65_534, 65_535, 65_536, 100_000]));
        specs.extend(deep(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16]));
    } else {
        specs.extend(wide(&[4, 5, 8, 10, 16, 17, 32, 33, 64, 66, 129, 258]));
        specs.extend(indices(&[2, 7, 8, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 1000, 4126, 4127, 4128, 16_383, 65_535]));
        specs.extend(deep(&[2, 4, 7, 11]));
    }
    specs.extend(combinations(4..=if thorough { 6 } else { 5 }));
    specs.extend(degenerate());
    specs.extend(places());
    let mut universes = pack(&specs, 40);
    // One with indices beyond the next boundary.
    let mut p = Pack::new();
    for s in indices(&[528_414, 528_415]) {
        s(&mut p);
    }
    universes.push(p.u);
    // Some for messages of megabytes.
    let mut p = Pack::new();
    let types = [
        Ty::Str, Ty::Bytes, Ty::F64.arr(), Ty::U64.arr(), Ty::S64.arr(), Ty::Bool.arr(), Ty::Str.arr(), Ty::Bytes.arr(),
        Ty::U64.arr().arr(), p.refs[0].clone(), p.refs[0].clone().arr(), p.refs[1].clone(), p.refs[1].clone().arr(), p.refs[3].clone(),
    ];
    for (k, ty) in types.into_iter().enumerate() {
        let rule = RULES[k % 3];
        p.u.add(k % FILES.len(), &format!("Huge{k}"), false, vec![field("a", rule, ty.clone(), 0), field("b", Rule::Opt, Ty::U64, 1)]);
        p.u.add(k % FILES.len(), &format!("HugeChoice{k}"), true, vec![field("a", RULES[(k + 1) % 3], ty, 0), field("b", Rule::Req, Ty::U64, 1)]);
    }
    universes.insert(0, p.u);
    universes
}

/// A smaller family, for explorations with many messages per type.
pub fn hostile(thorough: bool) -> Vec<Universe> {
    let mut specs = vec![];
    specs.extend(singles(0..=3));
    specs.extend(triples());
    if thorough {
        specs.extend(singles(4..=4));
        specs.extend(pairs());
    }
    specs.extend(holders(if thorough { 1 } else { 7 }));
    specs.extend(wide(&[5, 17]));
    specs.extend(indices(&[2, 30, 31, 126, 4126]));
    specs.extend(deep(&[3, 5]));
    specs.extend(degenerate());
    pack(&specs, if thorough { 30 } else { 20 })
}

/// Versions of types: every combination of rules (or absence) of three fields, in two spellings, and
/// types which contain them. The pairs are the documented safe changes.
pub fn versions(thorough: bool) -> Vec<Universe> {
    let mut out = vec![];
    let tys: &[[usize; 3]] = if thorough { &[[2, 6, 7], [0, 8, 5], [3, 1, 4], [6, 6, 6], [10, 9, 11]] } else { &[[2, 6, 7], [0, 8, 5]] };
    for (k, tys) in tys.iter().enumerate() {
        for choice in [false, true] {
            for wrap in 0..4 {
                let mut p = Pack::new();
                let states: Vec<Option<Rule>> = vec![None, Some(Rule::Req), Some(Rule::Opt), Some(Rule::Asym)];
                // The two spellings differ in names and in the order of the fields.
                let mut ids = [vec![], vec![]];
                for spelling in 0..2 {
                    for code in 0..64_usize {
                        let mut fields = vec![];
                        for i in 0..3_usize {
                            if let Some(rule) = states[code >> (2 * i) & 3] {
                                let ty = base_ty(&p, tys[i]).arr_n(if (i + k) % 4 == 3 { 1 } else { 0 });
                                let name = if spelling == 0 { ["alpha", "beta", "gamma"][i] } else { ["gamma", "renamed", "alpha"][i] };
                                // Leave room for deleted indices in the second field's place.
                                fields.push(field(name, rule, ty, [0, 1, 33][i]));
                            }
                        }
                        if spelling == 1 {
                            fields.reverse();
                        }
                        let id = p.add(choice, fields);
                        ids[spelling].push(id);
                    }
                }
                // Types which contain a version.
                let wrapped: Vec<Vec<usize>> = ids
                    .iter()
                    .map(|ids| {
                        ids.iter()
                            .map(|id| match wrap {
                                0 => *id,
                                1 => p.add(false, vec![field("one", Rule::Req, Ty::Ref(*id), 0), field("more", Rule::Opt, Ty::Ref(*id).arr(), 1)]),
                                2 => p.add(true, vec![field("one", Rule::Opt, Ty::Ref(*id), 0), field("many", Rule::Req, Ty::Ref(*id).arr_n(2), 1)]),
                                _ => p.add(false, vec![field("one", Rule::Asym, Ty::Ref(*id), 2), field("last", Rule::Req, Ty::U64, 1)]),
                            })
                            .collect()
                    })
                    .collect();
                for a in 0..64_usize {
                    for b in 0..64_usize {
                        let safe = (0..3).all(|i| {
                            let (x, y) = (states[a >> (2 * i) & 3], states[b >> (2 * i) & 3]);
                            x == y
                                || x == Some(Rule::Asym)
                                || y == Some(Rule::Asym)
                                || (x == Some(Rule::Opt) && y.is_none())
                                || (y == Some(Rule::Opt) && x.is_none())
                        });
                        if safe {
                            for (x, y) in [(0, 1), (1, 0)] {
                                p.u.pairs.push((wrapped[x][a], wrapped[y][b]));
                            }
                        }
                    }
                }
                out.push(p.u);
            }
        }
    }
    // Structs with a single required field and choices with just that field.
    let mut p = Pack::new();
    for base in 0..BASES {
        for depth in 0..=2 {
            for idx in [0, 1, 40] {
                let ty = base_ty(&p, base).arr_n(depth);
                let s = p.add(false, vec![field("x", Rule::Req, ty.clone(), idx)]);
                let c = p.add(true, vec![field("y", Rule::Req, ty, idx)]);
                p.u.pairs.extend([(s, c), (c, s)]);
                if depth == 0 {
                    let ws = p.add(false, vec![field("x", Rule::Req, Ty::Ref(s).arr(), 0), field("y", Rule::Opt, Ty::Ref(s), 1)]);
                    let wc = p.add(false, vec![field("x", Rule::Req, Ty::Ref(c).arr(), 0), field("y", Rule::Opt, Ty::Ref(c), 1)]);
                    p.u.pairs.extend([(ws, wc), (wc, ws)]);
                }
            }
        }
    }
    out.push(p.u);
    out
}

/// Types for measuring how the work grows: the usual ones, and series of types which grow themselves
/// (named `<Family>Step<size>`).
pub fn growing(thorough: bool) -> Vec<Universe> {
    let mut specs = singles(0..=if thorough { 4 } else { 3 });
    specs.extend(holders(if thorough { 3 } else { 16 }));
    specs.extend(wide(&[17, 33]));
    specs.extend(indices(&[31, 126, 4126]));
    specs.extend(deep(&[3, 5]));
    let mut out = pack(&specs, if thorough { 30 } else { 16 });
    let deepest = 24;
    let mut p = Pack::new();
    let mut family = 0;
    let mut chain = |p: &mut Pack, make: &dyn Fn(usize, Ty) -> (bool, Vec<Field>)| {
        family += 1;
        let file = family % FILES.len();
        let mut inner = Ty::U64;
        for n in 1..=deepest {
            let (choice, fields) = make(n, inner);
            inner = Ty::Ref(p.u.add(file, &format!("Chain{}Step{n}", ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P"][family - 1]), choice, fields));
        }
    };
    for rule in RULES {
        chain(&mut p, &|_, inner| (false, vec![field("inner", rule, inner, 0)]));
        chain(&mut p, &|_, inner| {
            let mut fields = vec![field("inner", rule, inner, 0)];
            if rule != Rule::Req {
                fields.push(field("last", Rule::Req, Ty::Unit, 1));
            }
            (true, fields)
        });
        chain(&mut p, &|_, inner| (false, vec![field("inner", rule, inner.arr(), 0), field("more", Rule::Opt, Ty::Str, 1)]));
    }
    chain(&mut p, &|n, inner| (n % 2 == 0, vec![field("inner", Rule::Req, inner, n as u64)]));
    chain(&mut p, &|n, inner| (n % 3 == 0, vec![field("inner", Rule::Req, if n % 2 == 0 { inner.arr() } else { inner }, 40)]));
    out.push(p.u);
    let mut p = Pack::new();
    for n in [3, 6, 12, 24] {
        for (letter, base) in [("A", Ty::Unit), ("B", Ty::U64), ("C", Ty::Str), ("D", p.refs[0].clone()), ("E", Ty::Bool)] {
            p.u.add(0, &format!("Array{letter}Step{n}"), false, vec![field("a", Rule::Req, base.clone().arr_n(n), 0)]);
            p.u.add(1, &format!("Array{letter}ChoiceStep{n}"), true, vec![field("a", Rule::Req, base.arr_n(n), 0)]);
        }
    }
    for n in [4, 8, 16, 32, 64, 128, 256].into_iter().take(if thorough { 7 } else { 6 }) {
        for (letter, rule) in [("A", Some(Rule::Req)), ("B", Some(Rule::Opt)), ("C", Some(Rule::Asym)), ("D", None)] {
            let fields = |base: &dyn Fn(usize) -> Ty| (0..n).map(|i| field(&name(i), rule.unwrap_or(RULES[i % 3]), base(i), i as u64)).collect::<Vec<_>>();
            let plain = [Ty::U64, Ty::Bytes, Ty::F64, Ty::Str.arr(), Ty::Bool];
            p.u.add(2, &format!("Wide{letter}Step{n}"), false, fields(&|i| plain[i % 5].clone()));
            let mut fields = fields(&|i| plain[(i + 2) % 5].clone());
            fields[n - 1].rule = Rule::Req;
            p.u.add(3, &format!("Wide{letter}ChoiceStep{n}"), true, fields);
        }
    }
    out.push(p.u);
    out
}
