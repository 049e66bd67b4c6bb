//! Bounded enumeration of byte messages for the readers of a type.
use crate::codec::{self, put_header, put_varint, UnitArrays, Val};
use crate::model::{Ty, Universe};
use crate::values::Values;
use std::collections::HashSet;

/// How nested messages are altered inside of a payload.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Nested {
    Plain,
    /// An unknown field before the first one.
    Prefixed,
    /// An unknown field after the last one.
    Suffixed,
    /// No fields at all.
    Emptied,
}

fn put(u: &Universe, ty: &Ty, v: &Val, how: Nested, top: bool, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Arr(t), Val::Arr(items)) if matches!(**t, Ty::Arr(_) | Ty::Ref(_)) => {
            for item in items {
                let mut e = vec![];
                put(u, t, item, how, false, &mut e);
                put_varint(e.len() as u64, out);
                out.extend_from_slice(&e);
            }
        }
        (Ty::Ref(d), v) => {
            let unknown = unused_index(u, *d);
            if how == Nested::Prefixed {
                put_header(unknown, 5, false, out);
                out.extend_from_slice(&[3, 0, 1, 7, 9]);
            }
            if how != Nested::Emptied {
                codec::put_message(u, *d, v, UnitArrays::Documented, out);
            }
            if how == Nested::Suffixed {
                put_header(unknown, 8, false, out);
                out.extend_from_slice(&[1, 3, 5, 7, 9, 11, 0, 1]);
            }
        }
        _ if top => codec::put_payload(u, ty, v, UnitArrays::Documented, out),
        _ => codec::put_element(u, ty, v, UnitArrays::Documented, out),
    }
}

pub fn unused_index(u: &Universe, d: usize) -> u64 {
    u.decls[d].fields.iter().map(|f| f.idx + 1).max().unwrap_or(0)
}

fn mentions_ref(ty: &Ty) -> bool {
    let mut r = vec![];
    ty.refs(&mut r);
    !r.is_empty()
}

/// The encodings of a field which are used in messages.
pub fn field_items(u: &Universe, vs: &Values, d: usize, pos: usize, level: usize) -> Vec<Vec<u8>> {
    let f = &u.decls[d].fields[pos];
    let mut out: Vec<Vec<u8>> = vec![];
    let integer = codec::integer_like(&f.ty, UnitArrays::Documented);
    let vals = vs.of(&f.ty, level);
    for (k, v) in vals.iter().enumerate() {
        let mut hows = vec![Nested::Plain];
        if mentions_ref(&f.ty) && (k == 0 || k + 1 == vals.len()) {
            hows.extend([Nested::Prefixed, Nested::Suffixed, Nested::Emptied]);
        }
        for how in hows {
            let mut p = vec![];
            put(u, &f.ty, v, how, true, &mut p);
            let mut m = vec![];
            put_header(f.idx, p.len(), integer, &mut m);
            m.extend_from_slice(&p);
            out.push(m);
            if matches!(v, Val::Units(_)) {
                // As the code writes it.
                let mut m = vec![];
                put_header(f.idx, p.len(), false, &mut m);
                m.extend_from_slice(&p);
                out.push(m);
            }
        }
    }
    let mut seen = HashSet::new();
    out.retain(|m| seen.insert(m.clone()));
    out
}

/// Well-formed fields which the type doesn't have, in every size mode.
pub fn unknown_items(u: &Universe, d: usize, rich: bool) -> Vec<Vec<u8>> {
    let decl = &u.decls[d];
    let next = unused_index(u, d);
    let mut out = vec![];
    let add = |idx: u64, mode: u64, payload: &[u8], out: &mut Vec<Vec<u8>>| {
        let mut m = vec![];
        put_varint((idx << 2) | mode, &mut m);
        if mode == 3 {
            put_varint(payload.len() as u64, &mut m);
        }
        m.extend_from_slice(payload);
        out.push(m);
    };
    let varint = |n: u64| {
        let mut p = vec![];
        put_varint(n, &mut p);
        p
    };
    let indices: Vec<u64> = if rich {
        let mut v = vec![next, next + 1, next + 40, (1 << 62) - 1];
        v.extend(decl.deleted.iter().take(2));
        v
    } else {
        vec![next, (1 << 62) - 1]
    };
    for (k, idx) in indices.iter().enumerate() {
        add(*idx, 0, &[], &mut out);
        // Payloads which look like fields.
        add(*idx, 1, &[1, 9, 7, 7, 1, 3, 0, 0], &mut out);
        add(*idx, 2, &varint(0), &mut out);
        add(*idx, 2, &varint(200), &mut out);
        add(*idx, 3, &[1], &mut out);
        if rich && k == 0 {
            for n in [20_000, 3_000_000, 300_000_000, 1 << 36, 1 << 43, u64::MAX] {
                add(*idx, 2, &varint(n), &mut out);
            }
            for n in [2_usize, 3, 7, 9, 127, 128, 300] {
                add(*idx, 3, &(0..n).map(|i| (i * 2 + 1) as u8).collect::<Vec<u8>>(), &mut out);
            }
            add(*idx, 3, &[0; 9], &mut out);
            add(*idx, 3, &vec![0xff; 20_000], &mut out);
        }
    }
    out
}

fn permutations(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}

/// Messages made of well-formed fields with distinct indices (structs), or with any indices
/// (choices).
pub fn well_formed(u: &Universe, d: usize, thorough: bool, emit: &mut dyn FnMut(&[u8])) {
    let vs = Values::new(u);
    let decl = &u.decls[d];
    let n = decl.fields.len();
    let unknown = unknown_items(u, d, n <= 3);
    let few_unknown = unknown_items(u, d, false);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut out = |parts: &[&[u8]]| {
        let m = parts.concat();
        if seen.insert(crate::util::fnv(&m)) {
            emit(&m);
        }
    };
    let rich_level = if n <= 2 { 1 } else { 0 };
    let items: Vec<Vec<Vec<u8>>> = (0..n).map(|p| field_items(u, &vs, d, p, if n <= 40 { rich_level } else { 0 })).collect();
    let one: Vec<Vec<Vec<u8>>> = (0..n)
        .map(|p| {
            let all = field_items(u, &vs, d, p, 0);
            if all.is_empty() {
                return all;
            }
            let mut v = vec![all[all.len() / 2].clone()];
            v.extend(all.first().filter(|f| **f != v[0]).cloned());
            v
        })
        .collect();
    out(&[]);
    for x in &unknown {
        out(&[x]);
        for y in &few_unknown {
            out(&[x, y]);
        }
    }
    if decl.choice {
        // Sequences of up to three fields, known or unknown.
        let mut alphabet: Vec<&[u8]> = vec![];
        for i in &one {
            alphabet.extend(i.iter().map(|v| &v[..]));
        }
        let few: Vec<&[u8]> = few_unknown.iter().map(|v| &v[..]).collect();
        for i in &items {
            for a in i {
                out(&[a]);
                for x in &unknown {
                    out(&[x, a]);
                    out(&[a, x]);
                }
                let near = if thorough || n <= 16 { alphabet.len() } else { 10 };
                for b in alphabet.iter().take(near).chain(alphabet.iter().skip(near.max(alphabet.len().saturating_sub(10)))) {
                    out(&[a, b]);
                }
            }
        }
        if n <= if thorough { 12 } else { 4 } {
            let mut all = alphabet.clone();
            all.extend(few.iter().take(if thorough { 10 } else { 5 }));
            for a in &all {
                for b in &all {
                    for c in &all {
                        out(&[a, b, c]);
                        if thorough && n <= 3 {
                            for e in &all {
                                out(&[a, b, c, e]);
                            }
                        }
                    }
                }
            }
        }
        return;
    }
    if n <= 4 {
        // Every subset of the fields in every order, with every combination of payloads, and up to
        // two unknown fields anywhere.
        for mask in 0..1_usize << n {
            let chosen: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            if chosen.iter().any(|i| items[*i].is_empty()) {
                continue;
            }
            for perm in permutations(&chosen) {
                let canonical = perm.windows(2).all(|w| w[0] < w[1]);
                let source = if canonical { &items } else { &one };
                let mut idx = vec![0; perm.len()];
                'product: loop {
                    let parts: Vec<&[u8]> = perm.iter().zip(&idx).map(|(f, i)| &source[*f][*i][..]).collect();
                    out(&parts);
                    let first = idx.iter().all(|i| *i == 0);
                    for pos in 0..=parts.len() {
                        let list = if first || n <= 1 { &unknown } else { &few_unknown };
                        for (k, x) in list.iter().enumerate() {
                            if !first && n > 2 && k > 1 {
                                break;
                            }
                            let mut p = parts.clone();
                            p.insert(pos, x);
                            out(&p);
                            if first {
                                for pos2 in pos + 1..=p.len() {
                                    for y in few_unknown.iter().take(if thorough { 10 } else { 3 }) {
                                        let mut q = p.clone();
                                        q.insert(pos2, y);
                                        out(&q);
                                    }
                                }
                            }
                        }
                    }
                    let mut k = idx.len();
                    loop {
                        if k == 0 {
                            break 'product;
                        }
                        k -= 1;
                        idx[k] += 1;
                        if idx[k] < source[perm[k]].len() {
                            break;
                        }
                        idx[k] = 0;
                    }
                }
            }
        }
        return;
    }
    // Many fields: bounded deviations from the complete message.
    let present: Vec<usize> = (0..n).filter(|i| !one[*i].is_empty()).collect();
    let base: Vec<&[u8]> = present.iter().map(|i| &one[*i][0][..]).collect();
    out(&base);
    let mut rev = base.clone();
    rev.reverse();
    out(&rev);
    let step = if thorough || n <= 40 { 1 } else { n / 40 };
    for i in (0..base.len()).step_by(step) {
        let mut rot = base.clone();
        rot.rotate_left(i);
        out(&rot);
        let mut missing = base.clone();
        missing.remove(i);
        out(&missing);
        for j in (0..missing.len()).step_by(step * 3) {
            let mut two = missing.clone();
            two.remove(j);
            out(&two);
        }
        for (k, x) in few_unknown.iter().enumerate() {
            if n <= 12 || k == i % few_unknown.len() {
                let mut p = base.clone();
                p.insert(i, x);
                out(&p);
            }
        }
        for other in items[present[i]].iter() {
            let mut p = base.clone();
            p[i] = other;
            out(&p);
        }
        let mut swapped = base.clone();
        swapped.swap(i, (i + 1) % base.len());
        out(&swapped);
        out(&[base[i]]);
    }
}

fn strings(alphabet: &[u8], left: usize, m: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    f(m);
    if left == 0 {
        return;
    }
    for b in alphabet {
        m.push(*b);
        strings(alphabet, left - 1, m, f);
        m.pop();
    }
}


/// Messages of very many fields: chains of fallbacks, fields which are not known, and repetitions.
pub fn long(u: &Universe, d: usize, each: &mut dyn FnMut(&[u8])) {
    let vs = Values::new(u);
    let decl = &u.decls[d];
    let shortest = |pos: usize| field_items(u, &vs, d, pos, 0).into_iter().min_by_key(Vec::len);
    let first = vs.first_message(d).map(|v| codec::encode(u, d, &v, UnitArrays::SizePrefixed));
    for item in unknown_items(u, d, false).iter().take(5).map(|i| i.repeat(5000)) {
        each(&item);
        if let Some(first) = &first {
            each(&[&item[..], first].concat());
            each(&[&first[..], &item].concat());
        }
    }
    let n = decl.fields.len();
    let picked: Vec<usize> = (0..n).filter(|i| n <= 6 || *i < 3 || *i + 3 >= n).collect();
    for pos in picked {
        let Some(item) = shortest(pos) else { continue };
        for times in [10, 100, 1000] {
            let m = item.repeat(times);
            each(&m);
            if let Some(first) = &first {
                each(&[&m[..], first].concat());
            }
        }
    }
}

/// A message of a choice with a chain of this many fallbacks, if the choice can have fallbacks.
pub fn chain(u: &Universe, d: usize, times: usize) -> Option<Vec<u8>> {
    let vs = Values::new(u);
    let decl = &u.decls[d];
    let shortest = |pos: usize| field_items(u, &vs, d, pos, 0).into_iter().min_by_key(Vec::len);
    if !decl.choice {
        return None;
    }
    let item = (0..decl.fields.len()).filter(|i| decl.fields[*i].rule == crate::model::Rule::Opt).find_map(shortest)?;
    let mut m = item.repeat(times);
    m.extend(codec::encode(u, d, &vs.first_message(d)?, UnitArrays::SizePrefixed));
    Some(m)
}

/// The bounds of an enumeration of hostile messages.
#[derive(Clone, Copy, Debug)]
pub struct Hostile {
    /// The length of the strings.
    pub len: usize,
    /// How many valid messages to mutate.
    pub bases: usize,
    /// Up to which length of a valid message two bytes are replaced.
    pub double: usize,
}

/// Hostile messages for a type: every string over an alphabet up to a length, every mutation of valid
/// messages. Returns how many valid messages were mutated.
pub fn hostile(u: &Universe, d: usize, bounds: Hostile, each: &mut dyn FnMut(&[u8])) -> usize {
    // Every string of these bytes up to a length.
    let n = u.decls[d].fields.len() as u8;
    let mut alphabet: Vec<u8> = vec![0x00, 0x01, 0x03, 0x05, 0x07, 0x09, 0x80, 0xff];
    alphabet.extend([0x0f, 0x11]);
    if n > 0 {
        // Headers of the last field and of an unknown field.
        let last = u.decls[d].fields.iter().map(|f| f.idx).max().unwrap();
        if last < 31 && last > 1 {
            alphabet.extend([(last as u8) << 3 | 1, (last as u8) << 3 | 7]);
        }
        if last < 30 {
            alphabet.push((last as u8 + 1) << 3 | 7);
        }
    }
    alphabet.sort_unstable();
    alphabet.dedup();
    let mut m = vec![];
    strings(&alphabet, bounds.len, &mut m, &mut |m| each(m));
    // Every small mutation of valid messages.
    let vs = Values::new(u);
    let mut base: Vec<Vec<u8>> = vs.messages(d, 1, 2).iter().map(|v| codec::encode(u, d, v, UnitArrays::SizePrefixed)).filter(|m| m.len() <= 80).collect();
    let mut count = base.len();
    if count > bounds.bases {
        // The shortest ones and the longest ones.
        base.sort_by_key(Vec::len);
        base.dedup();
        let tail = base.split_off(base.len().saturating_sub(bounds.bases / 4));
        base.truncate(bounds.bases - bounds.bases / 4);
        base.extend(tail);
        count = base.len();
    }
    let bytes: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 0x0f, 0x10, 0x11, 0x20, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff];
    for b in &base {
        for cut in 0..b.len() {
            each(&b[..cut]);
            // Without one byte.
            let mut w = b.clone();
            w.remove(cut);
            each(&w);
        }
        for i in 0..=b.len() {
            for x in &bytes {
                let mut w = b.clone();
                w.insert(i, *x);
                each(&w);
                if i < b.len() {
                    let mut w = b.clone();
                    w[i] = *x;
                    each(&w);
                    w.truncate(i + 1);
                    each(&w);
                }
            }
            if i < b.len() {
                for bit in 0..8 {
                    let mut w = b.clone();
                    w[i] ^= 1 << bit;
                    each(&w);
                }
                for delta in [1_u8, 255] {
                    let mut w = b.clone();
                    w[i] = w[i].wrapping_add(delta);
                    each(&w);
                }
            }
        }
    }
    let few = [0_u8, 1, 3, 5, 7, 9, 0x0f, 0x17, 0x80, 0xff];
    for b in base.iter().filter(|b| b.len() <= bounds.double) {
        for i in 0..b.len() {
            for j in 0..i {
                for x in few {
                    for y in few {
                        let mut w = b.clone();
                        w[i] = x;
                        w[j] = y;
                        each(&w);
                    }
                }
            }
        }
    }
    // Every single byte and pairs of bytes followed by enough other ones.
    for a in 0..=255_u8 {
        for tail in [&[][..], &[0], &[1, 1, 1], &[0xff; 12], &[0x80; 9], &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]] {
            let mut w = vec![a];
            w.extend_from_slice(tail);
            each(&w);
        }
    }
    count
}
