//! The Rust code which connects the explorer with the generated code.
use mc::model::{Rule, Ty, Universe};
use mc::names;
use std::fmt::Write;

fn to_rust(ty: &Ty, v: &str) -> String {
    match ty {
        Ty::Unit => "()".into(),
        Ty::F64 => format!("g_f64({v})"),
        Ty::U64 => format!("g_u64({v})"),
        Ty::S64 => format!("g_s64({v})"),
        Ty::Bool => format!("g_bool({v})"),
        Ty::Bytes => format!("g_bytes({v})"),
        Ty::Str => format!("g_str({v})"),
        Ty::Arr(t) if **t == Ty::Unit => format!("vec![(); g_units({v})]"),
        Ty::Arr(t) => format!("g_arr({v}).iter().map(|v| {}).collect::<Vec<_>>()", to_rust(t, "v")),
        Ty::Ref(d) => format!("o_{d}({v})"),
    }
}

fn from_rust(ty: &Ty, v: &str) -> String {
    match ty {
        Ty::Unit => format!("{{ let () = {v}; Val::Unit }}"),
        Ty::F64 => format!("Val::F64(f64::to_bits({v}))"),
        Ty::U64 => format!("Val::U64({v})"),
        Ty::S64 => format!("Val::S64({v})"),
        Ty::Bool => format!("Val::Bool({v})"),
        Ty::Bytes => format!("Val::Bytes({v})"),
        Ty::Str => format!("Val::Str({v})"),
        Ty::Arr(t) if **t == Ty::Unit => format!("Val::Units(Vec::<()>::len(&{v}) as u64)"),
        Ty::Arr(t) => format!("Val::Arr({v}.into_iter().map(|v| {}).collect())", from_rust(t, "v")),
        Ty::Ref(d) => format!("i_{d}({v})"),
    }
}

/// `main.rs` of a crate with the generated code in `gen.rs` beside it.
pub fn glue(u: &Universe, counting: bool) -> String {
    let mut s = String::new();
    s.push_str("#![allow(warnings)]\n#[path = \"gen.rs\"] mod gen;\nuse mc::engine::*;\nuse mc::codec::Val;\n");
    s.push_str("#[global_allocator] static METER: Meter = Meter;\n");
    for (i, d) in u.decls.iter().enumerate() {
        let module = format!("gen::{}", u.rust_module(d.file));
        let name = names::pascal(&d.name);
        let (out, inn) = (format!("{module}::{name}Out"), format!("{module}::{name}In"));
        let _ = writeln!(s, "fn o_{i}(v: &Val) -> {out} {{");
        if d.choice {
            s.push_str("    match g_ch(v) {\n");
            for (pos, f) in d.fields.iter().enumerate() {
                let variant = names::rust_ref(&names::pascal(&f.name));
                let mut args = vec![];
                if f.ty != Ty::Unit {
                    args.push(to_rust(&f.ty, "v"));
                }
                if f.rule != Rule::Req {
                    args.push(format!("Box::new(o_{i}(fb.unwrap()))"));
                }
                let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
                let _ = writeln!(s, "        ({pos}, v, fb) => {out}::{variant}{args},");
            }
            s.push_str("        _ => unreachable!(),\n    }\n}\n");
        } else {
            let _ = writeln!(s, "    let f = g_st(v);\n    {out} {{");
            for (pos, f) in d.fields.iter().enumerate() {
                let field = names::rust_ref(&names::snake(&f.name));
                if f.rule == Rule::Opt {
                    let _ = writeln!(s, "        {field}: f[{pos}].as_ref().map(|v| {}),", to_rust(&f.ty, "v"));
                } else {
                    let _ = writeln!(s, "        {field}: {},", to_rust(&f.ty, &format!("f[{pos}].as_ref().unwrap()")));
                }
            }
            s.push_str("    }\n}\n");
        }
        let _ = writeln!(s, "fn i_{i}(v: {inn}) -> Val {{");
        if d.choice {
            s.push_str("    match v {\n");
            for (pos, f) in d.fields.iter().enumerate() {
                let variant = names::rust_ref(&names::pascal(&f.name));
                let mut args = vec![];
                let mut value = "Val::Unit".to_owned();
                if f.ty != Ty::Unit {
                    args.push("v".to_owned());
                    value = from_rust(&f.ty, "v");
                }
                let mut fallback = "None".to_owned();
                if f.rule == Rule::Opt {
                    args.push("fb".to_owned());
                    fallback = format!("Some(i_{i}(*fb))");
                }
                let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
                let _ = writeln!(s, "        {inn}::{variant}{args} => ch({pos}, {value}, {fallback}),");
            }
            s.push_str("    }\n}\n");
        } else {
            s.push_str("    Val::Struct(vec![\n");
            for f in &d.fields {
                let field = names::rust_ref(&names::snake(&f.name));
                if f.rule == Rule::Req {
                    let _ = writeln!(s, "        Some({}),", from_rust(&f.ty, &format!("v.{field}")));
                } else {
                    let _ = writeln!(s, "        v.{field}.map(|v| {}),", from_rust(&f.ty, "v"));
                }
            }
            s.push_str("    ])\n}\n");
        }
        let _ = writeln!(
            s,
            "fn e_{i}(v: &Val, w: &mut dyn std::io::Write) -> (usize, std::io::Result<()>) {{ let m = o_{i}(v); (gen::Serialize::size(&m), gen::Serialize::serialize(&m, w)) }}"
        );
        let _ = writeln!(
            s,
            "fn d_{i}(r: &mut dyn std::io::BufRead) -> std::io::Result<Val> {{ metered(|| <{inn} as gen::Deserialize>::deserialize(r)).map(i_{i}) }}"
        );
        let _ = writeln!(s, "fn c_{i}(v: &Val) -> Val {{ let m: {inn} = o_{i}(v).into(); i_{i}(m) }}");
    }
    s.push_str("static TABLE: &[Entry] = &[\n");
    for i in 0..u.decls.len() {
        let _ = writeln!(s, "    Entry {{ enc: e_{i}, dec: d_{i}, conv: c_{i} }},");
    }
    s.push_str("];\n");
    if counting {
        // The counters which the compiler adds for measuring coverage.
        s.push_str(
            "extern \"C\" { static __start___llvm_prf_cnts: u64; static __stop___llvm_prf_cnts: u64; }
fn blocks() -> u64 {
    unsafe {
        let (mut at, end) = (&raw const __start___llvm_prf_cnts, &raw const __stop___llvm_prf_cnts);
        let mut sum = 0_u64;
        while at < end { sum = sum.wrapping_add(at.read_volatile()); at = at.add(1); }
        sum
    }
}
fn main() { child_main_counting(TABLE, blocks) }
",
        );
    } else {
        s.push_str("fn main() { child_main(TABLE) }\n");
    }
    s
}
