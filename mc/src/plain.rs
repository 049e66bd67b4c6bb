//! Values in the plain form in which they are exchanged with the JavaScript runner.
use crate::codec::Val;
use crate::model::{Ty, Universe};

pub fn put_bytes(b: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}

pub fn put(u: &Universe, ty: &Ty, v: &Val, out: &mut Vec<u8>) {
    match (ty, v) {
        (_, Val::Unit) => {}
        (_, Val::F64(n) | Val::U64(n)) => out.extend_from_slice(&n.to_le_bytes()),
        (_, Val::S64(n)) => out.extend_from_slice(&n.to_le_bytes()),
        (_, Val::Bool(b)) => out.push(u8::from(*b)),
        (_, Val::Bytes(b)) => put_bytes(b, out),
        (_, Val::Str(s)) => put_bytes(s.as_bytes(), out),
        (_, Val::Units(n)) => out.extend_from_slice(&(*n as u32).to_le_bytes()),
        (Ty::Arr(t), Val::Arr(a)) => {
            out.extend_from_slice(&(a.len() as u32).to_le_bytes());
            for v in a {
                put(u, t, v, out);
            }
        }
        (Ty::Ref(d), Val::Struct(f)) => {
            for (v, f) in f.iter().zip(&u.decls[*d].fields) {
                out.push(u8::from(v.is_some()));
                if let Some(v) = v {
                    put(u, &f.ty, v, out);
                }
            }
        }
        (Ty::Ref(d), Val::Choice(pos, v, fb)) => {
            out.extend_from_slice(&(*pos as u32).to_le_bytes());
            put(u, &u.decls[*d].fields[*pos].ty, v, out);
            out.push(u8::from(fb.is_some()));
            if let Some(fb) = fb {
                put(u, ty, fb, out);
            }
        }
        _ => panic!("a value does not fit its type"),
    }
}

pub struct Cursor<'a> {
    pub bytes: &'a [u8],
    pub at: usize,
}

impl Cursor<'_> {
    pub fn done(&self) -> bool {
        self.at >= self.bytes.len()
    }
    pub fn take(&mut self, n: usize) -> &[u8] {
        self.at += n;
        &self.bytes[self.at - n..self.at]
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    pub fn text(&mut self) -> String {
        String::from_utf8_lossy(&self.bytes()).into_owned()
    }
    pub fn val(&mut self, u: &Universe, ty: &Ty) -> Val {
        match ty {
            Ty::Unit => Val::Unit,
            Ty::F64 => Val::F64(self.u64()),
            Ty::U64 => Val::U64(self.u64()),
            Ty::S64 => Val::S64(self.u64() as i64),
            Ty::Bool => Val::Bool(self.u8() != 0),
            Ty::Bytes => Val::Bytes(self.bytes()),
            Ty::Str => Val::Str(self.text()),
            Ty::Arr(t) if **t == Ty::Unit => Val::Units(u64::from(self.u32())),
            Ty::Arr(t) => {
                let n = self.u32();
                Val::Arr((0..n).map(|_| self.val(u, t)).collect())
            }
            Ty::Ref(d) => {
                let decl = &u.decls[*d];
                if decl.choice {
                    let pos = self.u32() as usize;
                    let v = self.val(u, &decl.fields[pos].ty);
                    let fb = (self.u8() != 0).then(|| Box::new(self.val(u, ty)));
                    Val::Choice(pos, Box::new(v), fb)
                } else {
                    Val::Struct(decl.fields.iter().map(|f| (self.u8() != 0).then(|| self.val(u, &f.ty))).collect())
                }
            }
        }
    }
}
