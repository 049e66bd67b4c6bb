//! The documented binary encoding, written from README.md.
use crate::model::{Rule, Ty, Universe};
use std::fmt::Write;

/// A value. Structs are by field position; a choice has the position of the field, its payload and
/// possibly a fallback. The same type is used for the writer's and for the reader's values.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Unit,
    F64(u64),
    U64(u64),
    S64(i64),
    Bool(bool),
    Bytes(Vec<u8>),
    Str(String),
    /// An array of units, by its length.
    Units(u64),
    Arr(Vec<Val>),
    Struct(Vec<Option<Val>>),
    Choice(usize, Box<Val>, Option<Box<Val>>),
}

/// Which of the two readings of the size mode of `[Unit]` fields to use: the documentation says
/// that they are encoded the same way as `U64`, so as integers (mode 2). The code uses mode 3.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UnitArrays {
    Documented,
    SizePrefixed,
}

pub fn varint_size(n: u64) -> usize {
    match n {
        0..=127 => 1,
        128..=16_511 => 2,
        16_512..=2_113_663 => 3,
        2_113_664..=270_549_119 => 4,
        270_549_120..=34_630_287_487 => 5,
        34_630_287_488..=4_432_676_798_591 => 6,
        4_432_676_798_592..=567_382_630_219_903 => 7,
        567_382_630_219_904..=72_624_976_668_147_839 => 8,
        _ => 9,
    }
}

const OFFSETS: [u64; 10] = [
    0,
    0,
    128,
    16_512,
    2_113_664,
    270_549_120,
    34_630_287_488,
    4_432_676_798_592,
    567_382_630_219_904,
    72_624_976_668_147_840,
];

pub fn put_varint(n: u64, out: &mut Vec<u8>) {
    put_varint_sized(n, varint_size(n), out);
}

fn put_varint_sized(n: u64, size: usize, out: &mut Vec<u8>) {
    let v = n - OFFSETS[size];
    if size == 9 {
        out.push(0);
        out.extend_from_slice(&v.to_le_bytes());
    } else {
        // `size - 1` zero bits, a one bit, then the value; all little-endian.
        let word = (u128::from(v) << size) | (1_u128 << (size - 1));
        out.extend_from_slice(&word.to_le_bytes()[..size]);
    }
}

/// Read a variable-width integer: (value, size), or `None` if the bytes end early.
pub fn get_varint(bytes: &[u8]) -> Option<(u64, usize)> {
    let first = *bytes.first()?;
    let size = first.trailing_zeros() as usize + 1;
    if bytes.len() < size {
        return None;
    }
    let mut word = [0_u8; 16];
    word[..size].copy_from_slice(&bytes[..size]);
    let word = u128::from_le_bytes(word);
    let v = if size == 9 { (word >> 8) as u64 } else { (word >> size) as u64 };
    Some((OFFSETS[size].wrapping_add(v), size))
}

pub fn zigzag(n: i64) -> u64 {
    if n < 0 {
        ((-(i128::from(n))) as u64).wrapping_mul(2).wrapping_sub(1)
    } else {
        (n as u64) * 2
    }
}

pub fn unzigzag(n: u64) -> i64 {
    if n % 2 == 0 {
        (n / 2) as i64
    } else {
        (-(i128::from(n / 2)) - 1) as i64
    }
}

fn put_compact(n: u64, out: &mut Vec<u8>) {
    if n == 0 {
    } else if varint_size(n) >= 8 {
        out.extend_from_slice(&n.to_le_bytes());
    } else {
        put_varint(n, out);
    }
}

/// The value of a field (not of an element).
pub fn put_payload(u: &Universe, ty: &Ty, v: &Val, ua: UnitArrays, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Unit, Val::Unit) => {}
        (Ty::F64, Val::F64(bits)) => {
            if *bits != 0 {
                out.extend_from_slice(&bits.to_le_bytes());
            }
        }
        (Ty::U64, Val::U64(n)) => put_compact(*n, out),
        (Ty::S64, Val::S64(n)) => put_compact(zigzag(*n), out),
        (Ty::Bool, Val::Bool(b)) => put_compact(u64::from(*b), out),
        (Ty::Arr(_), Val::Units(n)) => put_compact(*n, out),
        _ => put_element(u, ty, v, ua, out),
    }
}

/// A value which isn't directly the value of a field.
pub fn put_element(u: &Universe, ty: &Ty, v: &Val, ua: UnitArrays, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Unit, Val::Unit) => {}
        (Ty::F64, Val::F64(bits)) => out.extend_from_slice(&bits.to_le_bytes()),
        (Ty::U64, Val::U64(n)) => put_varint(*n, out),
        (Ty::S64, Val::S64(n)) => put_varint(zigzag(*n), out),
        (Ty::Bool, Val::Bool(b)) => put_varint(u64::from(*b), out),
        (Ty::Bytes, Val::Bytes(b)) => out.extend_from_slice(b),
        (Ty::Str, Val::Str(s)) => out.extend_from_slice(s.as_bytes()),
        (Ty::Arr(_), Val::Units(n)) => put_varint(*n, out),
        (Ty::Arr(t), Val::Arr(items)) => {
            let inline = matches!(**t, Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool);
            for item in items {
                if inline {
                    put_element(u, t, item, ua, out);
                } else {
                    let mut e = vec![];
                    put_element(u, t, item, ua, &mut e);
                    put_varint(e.len() as u64, out);
                    out.extend_from_slice(&e);
                }
            }
        }
        (Ty::Ref(d), v) => put_message(u, *d, v, ua, out),
        (t, v) => panic!("value {v:?} is not of type {t:?}"),
    }
}

pub fn integer_like(ty: &Ty, ua: UnitArrays) -> bool {
    match ty {
        Ty::U64 | Ty::S64 | Ty::Bool => true,
        Ty::Arr(t) => **t == Ty::Unit && ua == UnitArrays::Documented,
        _ => false,
    }
}

pub fn put_header(idx: u64, size: usize, integer: bool, out: &mut Vec<u8>) {
    let mode = match size {
        0 => 0,
        8 => 1,
        _ if integer => 2,
        _ => 3,
    };
    put_varint((idx << 2) | mode, out);
    if mode == 3 {
        put_varint(size as u64, out);
    }
}

pub fn put_field(u: &Universe, decl: usize, pos: usize, v: &Val, ua: UnitArrays, out: &mut Vec<u8>) {
    let f = &u.decls[decl].fields[pos];
    let mut payload = vec![];
    put_payload(u, &f.ty, v, ua, &mut payload);
    put_header(f.idx, payload.len(), integer_like(&f.ty, ua), out);
    out.extend_from_slice(&payload);
}

/// A message as its writer encodes it.
pub fn put_message(u: &Universe, decl: usize, v: &Val, ua: UnitArrays, out: &mut Vec<u8>) {
    match v {
        Val::Struct(fields) => {
            for (pos, v) in fields.iter().enumerate() {
                if let Some(v) = v {
                    put_field(u, decl, pos, v, ua, out);
                }
            }
        }
        Val::Choice(pos, payload, fallback) => {
            put_field(u, decl, *pos, payload, ua, out);
            if let Some(fallback) = fallback {
                put_message(u, decl, fallback, ua, out);
            }
        }
        _ => panic!("not a message: {v:?}"),
    }
}

pub fn encode(u: &Universe, decl: usize, v: &Val, ua: UnitArrays) -> Vec<u8> {
    let mut out = vec![];
    put_message(u, decl, v, ua, &mut out);
    out
}

/// Does a type contain an array of units?
pub fn has_unit_array(u: &Universe, ty: &Ty) -> bool {
    match ty {
        Ty::Arr(t) => **t == Ty::Unit || has_unit_array(u, t),
        Ty::Ref(d) => u.decls[*d].fields.iter().any(|f| has_unit_array(u, &f.ty)),
        _ => false,
    }
}

/// The reader's view of a writer's value.
pub fn to_in(u: &Universe, ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::Arr(t), Val::Arr(items)) => Val::Arr(items.iter().map(|i| to_in(u, t, i)).collect()),
        (Ty::Ref(d), v) => to_in_message(u, *d, v),
        (_, v) => v.clone(),
    }
}

pub fn to_in_message(u: &Universe, decl: usize, v: &Val) -> Val {
    let d = &u.decls[decl];
    match v {
        Val::Struct(fields) => Val::Struct(
            fields.iter().zip(&d.fields).map(|(v, f)| v.as_ref().map(|v| to_in(u, &f.ty, v))).collect(),
        ),
        Val::Choice(pos, payload, fallback) => {
            let f = &d.fields[*pos];
            Val::Choice(
                *pos,
                Box::new(to_in(u, &f.ty, payload)),
                match f.rule {
                    Rule::Opt => fallback.as_ref().map(|fb| Box::new(to_in_message(u, decl, fb))),
                    _ => None,
                },
            )
        }
        _ => unreachable!(),
    }
}

/// The documented decoding of a message. `Err` says why the message is not a well-formed message
/// of this type: what a reader makes of it is then unspecified beyond being safe, except for a
/// missing field, which has to be reported.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// A required field (or any field of a choice) is missing.
    Missing,
    /// A field or an element extends beyond the end of what contains it.
    Overrun,
    /// Anything else: the documentation doesn't say what to do with it.
    Malformed(&'static str),
}

pub struct Header {
    pub idx: u64,
    pub mode: u64,
    pub size: u64,
    pub header_len: usize,
}

pub fn get_header(bytes: &[u8]) -> Result<Header, Bad> {
    let (tag, n) = get_varint(bytes).ok_or(Bad::Overrun)?;
    let (size, m) = match tag & 3 {
        0 => (0, 0),
        1 => (8, 0),
        2 => (u64::from(bytes.get(n).ok_or(Bad::Overrun)?.trailing_zeros() + 1), 0),
        _ => get_varint(&bytes[n..]).ok_or(Bad::Overrun)?,
    };
    Ok(Header { idx: tag >> 2, mode: tag & 3, size, header_len: n + m })
}

fn get_compact(bytes: &[u8]) -> Result<u64, Bad> {
    match bytes.len() {
        0 => Ok(0),
        8 => Ok(u64::from_le_bytes(bytes.try_into().unwrap())),
        _ => {
            let (v, n) = get_varint(bytes).ok_or(Bad::Overrun)?;
            if n == bytes.len() {
                Ok(v)
            } else {
                Err(Bad::Malformed("the size of an integer field differs from the size of the integer"))
            }
        }
    }
}

pub fn get_payload(u: &Universe, ty: &Ty, bytes: &[u8]) -> Result<Val, Bad> {
    match ty {
        Ty::Unit => {
            if bytes.is_empty() {
                Ok(Val::Unit)
            } else {
                Err(Bad::Malformed("a unit takes space"))
            }
        }
        Ty::F64 => match bytes.len() {
            0 => Ok(Val::F64(0)),
            8 => Ok(Val::F64(u64::from_le_bytes(bytes.try_into().unwrap()))),
            _ => Err(Bad::Malformed("the size of a number is not 0 or 8")),
        },
        Ty::U64 => Ok(Val::U64(get_compact(bytes)?)),
        Ty::S64 => Ok(Val::S64(unzigzag(get_compact(bytes)?))),
        Ty::Bool => match get_compact(bytes)? {
            0 => Ok(Val::Bool(false)),
            1 => Ok(Val::Bool(true)),
            _ => Err(Bad::Malformed("a Boolean is not 0 or 1")),
        },
        Ty::Arr(t) if **t == Ty::Unit => Ok(Val::Units(get_compact(bytes)?)),
        _ => get_element(u, ty, bytes),
    }
}

fn get_element(u: &Universe, ty: &Ty, bytes: &[u8]) -> Result<Val, Bad> {
    match ty {
        Ty::Unit => {
            if bytes.is_empty() {
                Ok(Val::Unit)
            } else {
                Err(Bad::Malformed("a unit takes space"))
            }
        }
        Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool => {
            let (v, n) = get_inline(ty, bytes)?;
            if n == bytes.len() {
                Ok(v)
            } else {
                Err(Bad::Malformed("trailing bytes"))
            }
        }
        Ty::Bytes => Ok(Val::Bytes(bytes.to_vec())),
        Ty::Str => String::from_utf8(bytes.to_vec()).map(Val::Str).map_err(|_| Bad::Malformed("not UTF-8")),
        Ty::Arr(t) => match **t {
            Ty::Unit => {
                let (v, n) = get_varint(bytes).ok_or(Bad::Overrun)?;
                if n == bytes.len() {
                    Ok(Val::Units(v))
                } else {
                    Err(Bad::Malformed("trailing bytes"))
                }
            }
            Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool => {
                let mut rest = bytes;
                let mut out = vec![];
                while !rest.is_empty() {
                    let (v, n) = get_inline(t, rest)?;
                    out.push(v);
                    rest = &rest[n..];
                }
                Ok(Val::Arr(out))
            }
            _ => {
                let mut rest = bytes;
                let mut out = vec![];
                while !rest.is_empty() {
                    let (size, n) = get_varint(rest).ok_or(Bad::Overrun)?;
                    rest = &rest[n..];
                    if size > rest.len() as u64 {
                        return Err(Bad::Overrun);
                    }
                    out.push(get_element(u, t, &rest[..size as usize])?);
                    rest = &rest[size as usize..];
                }
                Ok(Val::Arr(out))
            }
        },
        Ty::Ref(d) => get_message(u, *d, bytes),
    }
}

fn get_inline(ty: &Ty, bytes: &[u8]) -> Result<(Val, usize), Bad> {
    if *ty == Ty::F64 {
        if bytes.len() < 8 {
            return Err(Bad::Overrun);
        }
        return Ok((Val::F64(u64::from_le_bytes(bytes[..8].try_into().unwrap())), 8));
    }
    let (v, n) = get_varint(bytes).ok_or(Bad::Overrun)?;
    Ok((
        match ty {
            Ty::U64 => Val::U64(v),
            Ty::S64 => Val::S64(unzigzag(v)),
            _ => match v {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err(Bad::Malformed("a Boolean is not 0 or 1")),
            },
        },
        n,
    ))
}

/// Decode a message strictly. In a struct with duplicate fields, the documentation doesn't say
/// which one counts, so that is malformed. Once the fields of a choice are determined, the rest of
/// the message has to be well-formed as a sequence of fields only.
pub fn get_message(u: &Universe, decl: usize, bytes: &[u8]) -> Result<Val, Bad> {
    let d = &u.decls[decl];
    let mut rest = bytes;
    let mut fields: Vec<Option<Val>> = vec![None; d.fields.len()];
    let mut chosen: Option<(usize, Val, Vec<u8>)> = None;
    let mut bad: Option<Bad> = None;
    while !rest.is_empty() {
        let h = get_header(rest)?;
        rest = &rest[h.header_len..];
        if h.size > rest.len() as u64 {
            return Err(Bad::Overrun);
        }
        let payload = &rest[..h.size as usize];
        rest = &rest[h.size as usize..];
        if chosen.is_some() {
            continue;
        }
        if let Some(pos) = d.fields.iter().position(|f| f.idx == h.idx) {
            match get_payload(u, &d.fields[pos].ty, payload) {
                Err(e) => {
                    if bad.is_none() {
                        bad = Some(e);
                    }
                }
                Ok(v) => {
                    if d.choice {
                        chosen = Some((pos, v, rest.to_vec()));
                    } else if fields[pos].is_some() {
                        return Err(Bad::Malformed("duplicate field"));
                    } else {
                        fields[pos] = Some(v);
                    }
                }
            }
        }
    }
    if let Some(bad) = bad {
        // A missing field inside of a field is reported, whatever follows.
        return Err(bad);
    }
    if d.choice {
        match chosen {
            None => Err(Bad::Missing),
            Some((pos, v, rest)) => {
                let fallback = if d.fields[pos].rule == Rule::Opt {
                    Some(Box::new(get_message(u, decl, &rest)?))
                } else {
                    None
                };
                Ok(Val::Choice(pos, Box::new(v), fallback))
            }
        }
    } else {
        for (f, v) in d.fields.iter().zip(&fields) {
            if f.rule == Rule::Req && v.is_none() {
                return Err(Bad::Missing);
            }
        }
        Ok(Val::Struct(fields))
    }
}

impl Val {
    /// A compact text for reports.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s);
        s
    }
    fn show_to(&self, s: &mut String) {
        match self {
            Val::Unit => s.push_str("()"),
            Val::F64(b) => {
                let _ = write!(s, "{:?}f({b:#x})", f64::from_bits(*b));
            }
            Val::U64(n) => {
                let _ = write!(s, "{n}");
            }
            Val::S64(n) => {
                let _ = write!(s, "{n:+}");
            }
            Val::Bool(b) => {
                let _ = write!(s, "{b}");
            }
            Val::Bytes(b) => {
                let _ = write!(s, "x{}", crate::util::hex_short(b));
            }
            Val::Str(t) => {
                let _ = write!(s, "{:?}", crate::util::clip(t, 60));
            }
            Val::Units(n) => {
                let _ = write!(s, "[();{n}]");
            }
            Val::Arr(v) => {
                s.push('[');
                for (i, v) in v.iter().enumerate() {
                    if i == 12 {
                        let _ = write!(s, "…");
                        break;
                    }
                    v.show_to(s);
                    s.push(',');
                }
                let _ = write!(s, "]({})", v.len());
            }
            Val::Struct(f) => {
                s.push('{');
                for (i, v) in f.iter().enumerate() {
                    if i == 40 {
                        s.push('…');
                        break;
                    }
                    match v {
                        None => s.push('-'),
                        Some(v) => v.show_to(s),
                    }
                    s.push(';');
                }
                s.push('}');
            }
            Val::Choice(p, v, fb) => {
                let _ = write!(s, "#{p}(");
                v.show_to(s);
                if let Some(fb) = fb {
                    s.push_str(" else ");
                    fb.show_to(s);
                }
                s.push(')');
            }
        }
    }
}
