//! The model of schemas: a universe is a set of files with declarations.
use crate::names;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Unit,
    F64,
    U64,
    S64,
    Bool,
    Bytes,
    Str,
    Arr(Box<Ty>),
    /// A declaration of the universe, by its position.
    Ref(usize),
}

pub const SCALARS: [Ty; 7] = [Ty::Unit, Ty::F64, Ty::U64, Ty::S64, Ty::Bool, Ty::Bytes, Ty::Str];

impl Ty {
    pub fn arr(self) -> Ty {
        Ty::Arr(Box::new(self))
    }
    pub fn arr_n(self, depth: usize) -> Ty {
        (0..depth).fold(self, |t, _| t.arr())
    }
    pub fn text(&self) -> String {
        match self {
            Ty::Unit => "Unit".into(),
            Ty::F64 => "F64".into(),
            Ty::U64 => "U64".into(),
            Ty::S64 => "S64".into(),
            Ty::Bool => "Bool".into(),
            Ty::Bytes => "Bytes".into(),
            Ty::Str => "String".into(),
            Ty::Arr(t) => format!("[{}]", t.text()),
            Ty::Ref(i) => format!("@{i}"),
        }
    }
    pub fn parse(s: &str) -> Ty {
        match s {
            "Unit" => Ty::Unit,
            "F64" => Ty::F64,
            "U64" => Ty::U64,
            "S64" => Ty::S64,
            "Bool" => Ty::Bool,
            "Bytes" => Ty::Bytes,
            "String" => Ty::Str,
            _ if s.starts_with('[') => Ty::parse(&s[1..s.len() - 1]).arr(),
            _ => Ty::Ref(s[1..].parse().unwrap()),
        }
    }
    pub fn refs(&self, out: &mut Vec<usize>) {
        match self {
            Ty::Arr(t) => t.refs(out),
            Ty::Ref(i) => out.push(*i),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Rule {
    Req,
    Opt,
    Asym,
}

pub const RULES: [Rule; 3] = [Rule::Req, Rule::Opt, Rule::Asym];

impl Rule {
    pub fn letter(self) -> char {
        match self {
            Rule::Req => 'R',
            Rule::Opt => 'O',
            Rule::Asym => 'A',
        }
    }
    pub fn keyword(self) -> &'static str {
        match self {
            Rule::Req => "",
            Rule::Opt => "optional ",
            Rule::Asym => "asymmetric ",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Field {
    pub name: String,
    pub rule: Rule,
    pub ty: Ty,
    pub idx: u64,
}

pub fn field(name: &str, rule: Rule, ty: Ty, idx: u64) -> Field {
    Field { name: name.to_owned(), rule, ty, idx }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Decl {
    pub file: usize,
    pub name: String,
    pub choice: bool,
    pub fields: Vec<Field>,
    pub deleted: Vec<u64>,
}

impl Decl {
    /// Mark every unused index below the largest one as deleted.
    pub fn fill_deleted(&mut self) {
        let max = self.fields.iter().map(|f| f.idx).max();
        self.deleted = match max {
            None => vec![],
            Some(max) => {
                let used: std::collections::HashSet<u64> = self.fields.iter().map(|f| f.idx).collect();
                (0..max).filter(|i| !used.contains(i)).collect()
            }
        };
    }
}

/// The files are paths without the extension, relative to the base directory. File 0 is the root,
/// and imports all the others.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Universe {
    pub files: Vec<String>,
    pub decls: Vec<Decl>,
    /// Pairs of declarations which are versions of each other.
    pub pairs: Vec<(usize, usize)>,
}

impl Universe {
    pub fn new(root: &str) -> Universe {
        Universe { files: vec![root.to_owned()], decls: vec![], pairs: vec![] }
    }
    pub fn file(&mut self, path: &str) -> usize {
        if let Some(i) = self.files.iter().position(|f| f == path) {
            return i;
        }
        self.files.push(path.to_owned());
        self.files.len() - 1
    }
    pub fn add(&mut self, file: usize, name: &str, choice: bool, fields: Vec<Field>) -> usize {
        let mut d = Decl { file, name: name.to_owned(), choice, fields, deleted: vec![] };
        d.fill_deleted();
        self.decls.push(d);
        self.decls.len() - 1
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        for f in &self.files {
            let _ = writeln!(s, "file {f}");
        }
        for (a, b) in &self.pairs {
            let _ = writeln!(s, "pair {a} {b}");
        }
        for d in &self.decls {
            let _ = writeln!(s, "decl {} {} {}", d.file, d.name, if d.choice { 'c' } else { 's' });
            for f in &d.fields {
                let _ = writeln!(s, "field {} {} {} {}", f.name, f.rule.letter(), f.ty.text(), f.idx);
            }
            if !d.deleted.is_empty() {
                s.push_str("deleted");
                let mut i = 0;
                while i < d.deleted.len() {
                    let mut j = i;
                    while j + 1 < d.deleted.len() && d.deleted[j + 1] == d.deleted[j] + 1 {
                        j += 1;
                    }
                    let _ = write!(s, " {}-{}", d.deleted[i], d.deleted[j]);
                    i = j + 1;
                }
                s.push('\n');
            }
        }
        s
    }

    pub fn from_text(text: &str) -> Universe {
        let mut u = Universe::default();
        for line in text.lines() {
            let w: Vec<&str> = line.split(' ').collect();
            match w[0] {
                "file" => u.files.push(w[1].to_owned()),
                "pair" => u.pairs.push((w[1].parse().unwrap(), w[2].parse().unwrap())),
                "decl" => u.decls.push(Decl {
                    file: w[1].parse().unwrap(),
                    name: w[2].to_owned(),
                    choice: w[3] == "c",
                    fields: vec![],
                    deleted: vec![],
                }),
                "field" => {
                    let rule = match w[2] {
                        "R" => Rule::Req,
                        "O" => Rule::Opt,
                        _ => Rule::Asym,
                    };
                    u.decls.last_mut().unwrap().fields.push(Field {
                        name: w[1].to_owned(),
                        rule,
                        ty: Ty::parse(w[3]),
                        idx: w[4].parse().unwrap(),
                    });
                }
                "deleted" => {
                    for r in &w[1..] {
                        let (a, b) = r.split_once('-').unwrap();
                        let (a, b): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
                        u.decls.last_mut().unwrap().deleted.extend(a..=b);
                    }
                }
                _ => {}
            }
        }
        u
    }

    /// The text of a type as written in a file.
    pub fn ty_source(&self, file: usize, ty: &Ty) -> String {
        match ty {
            Ty::Arr(t) => format!("[{}]", self.ty_source(file, t)),
            Ty::Ref(i) => {
                let d = &self.decls[*i];
                if d.file == file {
                    escape(&d.name)
                } else {
                    format!("imp{}.{}", d.file, escape(&d.name))
                }
            }
            t => t.text(),
        }
    }

    pub fn decl_source(&self, i: usize) -> String {
        let d = &self.decls[i];
        let mut s = String::new();
        let _ = writeln!(s, "{} {} {{", if d.choice { "choice" } else { "struct" }, escape(&d.name));
        for f in &d.fields {
            if f.ty == Ty::Unit && f.idx % 2 == 0 {
                let _ = writeln!(s, "    {}{} = {}", f.rule.keyword(), escape(&f.name), f.idx);
            } else {
                let _ = writeln!(
                    s,
                    "    {}{}: {} = {}",
                    f.rule.keyword(),
                    escape(&f.name),
                    self.ty_source(d.file, &f.ty),
                    f.idx
                );
            }
        }
        if !d.deleted.is_empty() {
            s.push_str("\n    deleted");
            for i in &d.deleted {
                let _ = write!(s, " {i}");
            }
            s.push('\n');
        }
        s.push_str("}\n");
        s
    }

    /// The files to write: (path with extension, contents).
    pub fn sources(&self) -> Vec<(String, String)> {
        let mut out = vec![];
        for (fi, path) in self.files.iter().enumerate() {
            let mut s = String::new();
            let mut imports: Vec<usize> = if fi == 0 { (1..self.files.len()).collect() } else { vec![] };
            for d in self.decls.iter().filter(|d| d.file == fi) {
                for f in &d.fields {
                    let mut refs = vec![];
                    f.ty.refs(&mut refs);
                    for r in refs {
                        if self.decls[r].file != fi {
                            imports.push(self.decls[r].file);
                        }
                    }
                }
            }
            imports.sort_unstable();
            imports.dedup();
            for i in imports {
                let _ = writeln!(s, "import '{}.t' as imp{i}", relative(path, &self.files[i]));
            }
            for (di, d) in self.decls.iter().enumerate() {
                if d.file == fi {
                    s.push('\n');
                    s.push_str(&self.decl_source(di));
                }
            }
            out.push((format!("{path}.t"), s));
        }
        out
    }

    /// Reference cycle check: does a declaration contain itself?
    pub fn cyclic(&self) -> bool {
        let n = self.decls.len();
        let mut state = vec![0_u8; n];
        fn visit(u: &Universe, i: usize, state: &mut [u8]) -> bool {
            if state[i] == 1 {
                return true;
            }
            if state[i] == 2 {
                return false;
            }
            state[i] = 1;
            for f in &u.decls[i].fields {
                let mut refs = vec![];
                f.ty.refs(&mut refs);
                for r in refs {
                    if visit(u, r, state) {
                        return true;
                    }
                }
            }
            state[i] = 2;
            false
        }
        (0..n).any(|i| visit(self, i, &mut state))
    }

    /// The Rust path of a declaration's module from the root of the generated file.
    pub fn rust_module(&self, file: usize) -> String {
        self.files[file]
            .split('/')
            .map(names::rust_module)
            .collect::<Vec<_>>()
            .join("::")
    }
    pub fn ts_module(&self, file: usize) -> String {
        self.files[file].split('/').map(names::ts_type).collect::<Vec<_>>().join(".")
    }

    /// The declarations which have values at all: a choice needs a required field with a value.
    pub fn inhabited(&self) -> Vec<bool> {
        let mut inh = vec![false; self.decls.len()];
        loop {
            let mut changed = false;
            for i in 0..self.decls.len() {
                if !inh[i] && self.decl_inhabited(i, &inh) {
                    inh[i] = true;
                    changed = true;
                }
            }
            if !changed {
                return inh;
            }
        }
    }
    fn decl_inhabited(&self, i: usize, inh: &[bool]) -> bool {
        let d = &self.decls[i];
        if d.choice {
            d.fields.iter().any(|f| f.rule == Rule::Req && ty_inhabited(&f.ty, inh))
        } else {
            d.fields.iter().all(|f| f.rule == Rule::Opt || ty_inhabited(&f.ty, inh))
        }
    }
}

pub fn ty_inhabited(t: &Ty, inh: &[bool]) -> bool {
    match t {
        Ty::Ref(i) => inh[*i],
        _ => true,
    }
}

/// An identifier as it has to be written in a schema.
pub fn escape(name: &str) -> String {
    if names::SCHEMA_KEYWORDS.contains(&name) {
        format!("${name}")
    } else {
        name.to_owned()
    }
}

/// The path to a file from the directory of another one.
pub fn relative(from: &str, to: &str) -> String {
    let from_dirs: Vec<&str> = from.split('/').collect();
    let from_dirs = &from_dirs[..from_dirs.len() - 1];
    let to_parts: Vec<&str> = to.split('/').collect();
    let mut common = 0;
    while common < from_dirs.len() && common + 1 < to_parts.len() && from_dirs[common] == to_parts[common] {
        common += 1;
    }
    let mut parts: Vec<&str> = vec![".."; from_dirs.len() - common];
    parts.extend(&to_parts[common..]);
    parts.join("/")
}
