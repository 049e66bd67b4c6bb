//! The documented name conventions: names are split into words at underscores, hyphens and before
//! capital letters.

pub fn words(name: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut current = String::new();
    for c in name.chars() {
        if c == '_' || c == '-' {
            if !current.is_empty() {
                out.push(std::mem::take(&mut current));
            }
        } else {
            if c.is_uppercase() && !current.is_empty() {
                out.push(std::mem::take(&mut current));
            }
            current.push(c);
        }
    }
    if !current.is_empty() {
        out.push(current);
    }
    out
}

fn capitalize(word: &str) -> String {
    let mut chars = word.chars();
    match chars.next() {
        None => String::new(),
        Some(c) => c.to_uppercase().collect::<String>() + &chars.as_str().to_lowercase(),
    }
}

pub fn snake(name: &str) -> String {
    words(name).iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join("_")
}

pub fn pascal(name: &str) -> String {
    words(name).iter().map(|w| capitalize(w)).collect()
}

pub fn camel(name: &str) -> String {
    words(name)
        .iter()
        .enumerate()
        .map(|(i, w)| if i == 0 { w.to_lowercase() } else { capitalize(w) })
        .collect()
}

pub const SCHEMA_KEYWORDS: &[&str] = &[
    "as", "asymmetric", "choice", "deleted", "import", "optional", "struct", "Bool", "Bytes", "F64", "S64", "String", "U64", "Unit",
];

pub const RUST_KEYWORDS: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
    "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super",
    "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box",
    "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "union",
    "macro_rules", "raw", "safe",
];

pub const TS_KEYWORDS: &[&str] = &[
    "abstract", "any", "as", "assert", "asserts", "async", "await", "bigint", "boolean", "break", "case", "catch",
    "class", "const", "constructor", "continue", "debugger", "declare", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "from", "function", "get", "global", "if", "implements", "import",
    "in", "infer", "instanceof", "interface", "intrinsic", "is", "keyof", "let", "module", "namespace", "never", "new",
    "null", "number", "object", "of", "override", "package", "private", "protected", "public", "readonly", "require",
    "return", "set", "static", "string", "super", "switch", "symbol", "this", "throw", "true", "try", "type", "typeof",
    "undefined", "unique", "unknown", "var", "void", "while", "with", "yield", "satisfies", "accessor", "out", "using",
    "defer", "arguments", "eval", "NaN", "Infinity",
];

pub const JS_OBJECT_PROPERTIES: &[&str] = &[
    "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable", "toLocaleString", "toString", "valueOf",
];

/// How to refer to a Rust item or field with this name from other code (raw identifiers are the
/// same as plain ones).
pub fn rust_ref(converted: &str) -> String {
    match converted {
        "self" | "Self" | "super" | "crate" => format!("{converted}_"),
        c => format!("r#{c}"),
    }
}

/// The names which the TypeScript generator marks with an underscore.
pub const TS_ESCAPED: &[&str] = &[
    "abstract", "any", "as", "assert", "asserts", "async", "await", "bigint", "boolean", "break", "case", "catch",
    "class", "const", "constructor", "continue", "debugger", "declare", "default", "delete", "do", "else", "enum",
    "export", "extends", "false", "finally", "for", "from", "function", "get", "global", "if", "implements", "import",
    "in", "infer", "instanceof", "interface", "intrinsic", "is", "keyof", "let", "module", "namespace", "never", "new",
    "null", "number", "object", "of", "override", "package", "private", "protected", "public", "readonly", "require",
    "return", "set", "static", "string", "super", "switch", "symbol", "this", "throw", "true", "try", "type", "typeof",
    "undefined", "unique", "unknown", "var", "void", "while", "with", "yield", "hasOwnProperty", "isPrototypeOf",
    "propertyIsEnumerable", "toLocaleString", "toString", "valueOf",
];

/// The TypeScript name of a field.
pub fn ts_field(name: &str) -> String {
    let c = camel(name);
    if TS_ESCAPED.contains(&c.as_str()) {
        format!("_{c}")
    } else {
        c
    }
}

/// The Rust name of the module of a file or directory.
pub fn rust_module(name: &str) -> String {
    match snake(name).as_str() {
        // The generated code itself needs these.
        c @ ("bool" | "f64" | "i64" | "io" | "std" | "u8" | "u32" | "u64" | "usize") => format!("{c}_"),
        c => rust_ref(c),
    }
}

/// The TypeScript namespace with the functions of a type, or of a file or directory.
pub fn ts_type(name: &str) -> String {
    match pascal(name).as_str() {
        // The generated code itself needs these.
        c @ ("Array" | "ArrayBuffer" | "BigInt" | "DataView" | "Error" | "Number" | "Object" | "RangeError" | "TextDecoder" | "TextEncoder" | "Uint8Array") => {
            format!("_{c}")
        }
        c => c.to_owned(),
    }
}
