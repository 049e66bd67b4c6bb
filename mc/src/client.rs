//! Programs which use generated code by its documented names, and which have to compile: they take
//! every type apart completely.
use crate::model::{Rule, Universe};
use crate::names;
use std::fmt::Write;

/// A Rust module. The generated code is known as `made`.
pub fn rust(u: &Universe, gen: &str) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "use crate::{gen} as made;\nfn both<T: made::Serialize, U: made::Deserialize + From<T>>() {{}}");
    for (i, d) in u.decls.iter().enumerate() {
        let name = format!("made::{}::{}", u.rust_module(d.file), names::pascal(&d.name));
        let _ = writeln!(s, "fn b{i}() {{ both::<{name}Out, {name}In>() }}");
        for dir in ["Out", "In"] {
            if d.choice {
                let arms: String = d.fields.iter().map(|f| format!(" {name}{dir}::{} {{ .. }} => (),", names::rust_ref(&names::pascal(&f.name)))).collect();
                let _ = writeln!(s, "fn x{i}{dir}(x: {name}{dir}) {{ match x {{{arms} }} }}");
            } else {
                let fields: String = d.fields.iter().enumerate().map(|(k, f)| format!(" {}: f{k},", names::rust_ref(&names::snake(&f.name)))).collect();
                let optional: String = d
                    .fields
                    .iter()
                    .enumerate()
                    .filter(|(_, f)| f.rule == Rule::Opt || (f.rule == Rule::Asym && dir == "In"))
                    .map(|(k, _)| format!(" let _: Option<_> = f{k};"))
                    .collect();
                let _ = writeln!(s, "fn x{i}{dir}(x: {name}{dir}) {{ let {name}{dir} {{{fields} }} = x;{optional} }}");
            }
        }
    }
    s
}

fn union(keys: &[String]) -> String {
    if keys.is_empty() {
        "never".into()
    } else {
        keys.iter().map(|k| format!("'{k}'")).collect::<Vec<_>>().join(" | ")
    }
}

/// A TypeScript module beside the generated one, `./GEN`.
pub fn typescript(u: &Universe, gen: &str) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "import * as g from './{gen}';");
    s.push_str("type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;\n");
    s.push_str("type Keys<T> = T extends unknown ? keyof T : never;\n");
    for (i, d) in u.decls.iter().enumerate() {
        let name = format!("g.{}.{}", u.ts_module(d.file), names::ts_type(&d.name));
        let plain = format!("g.{}.{}", u.ts_module(d.file), names::pascal(&d.name));
        let fields: Vec<String> = d.fields.iter().map(|f| names::ts_field(&f.name)).collect();
        for dir in ["Out", "In"] {
            let mut keys = fields.clone();
            if d.choice {
                if dir == "In" && !keys.is_empty() {
                    keys.push("$field".into());
                }
                if d.fields.iter().any(|f| f.rule == Rule::Opt || (f.rule == Rule::Asym && dir == "Out")) {
                    keys.push("$fallback".into());
                }
            }
            let _ = writeln!(s, "export const k{i}{dir}: Eq<Keys<{plain}{dir}>, {}> = true;", union(&keys));
            if d.choice && dir == "In" && !fields.is_empty() {
                let _ = writeln!(s, "export const d{i}: Eq<{plain}In['$field'], {}> = true;", union(&fields));
            }
        }
        let _ = writeln!(s, "export const s{i}: (x: {plain}Out) => number = {name}.size;");
        let _ = writeln!(s, "export const w{i}: (x: {plain}Out) => ArrayBuffer = {name}.serialize;");
        let _ = writeln!(s, "export const r{i}: (x: g.Deserializable) => {plain}In | Error = {name}.deserialize;");
    }
    s
}
