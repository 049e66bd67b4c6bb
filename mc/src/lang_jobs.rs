//! The checks of what is accepted and what is rejected: C10, C11 and C12.
use crate::cases::{self, alone, Case, Verdict};
use crate::driver::{self, run_typical};
use crate::report::{file, Report};
use mc::util::{clip, fnv, par_map};
use std::collections::HashSet;

/// A set of cases without repetitions.
#[derive(Default)]
pub struct Cases {
    pub list: Vec<Vec<(String, String)>>,
    seen: HashSet<u64>,
}

impl Cases {
    pub fn text(&mut self, text: &str) {
        self.tree(&[("main.t", text)]);
    }
    pub fn tree(&mut self, files: &[(&str, &str)]) {
        let key: String = files.iter().map(|(n, t)| format!("{n}\0{t}\0")).collect();
        if self.seen.insert(fnv(key.as_bytes())) {
            self.list.push(files.iter().map(|(n, t)| ((*n).to_owned(), (*t).to_owned())).collect());
        }
    }
}

fn run(report: &Report, what: &str, cases: Cases, size: usize) {
    report.add(what, cases.list.len() as u64);
    report.add("cases", cases.list.len() as u64);
    for c in cases.list.iter().step_by((cases.list.len() / 3).max(1)).take(3) {
        let c = Case::tree(c.clone());
        report.sample(format!("{what}: {} ({})", clip(&c.show(), 500), clip(&c.why, 200)));
    }
    let runs = cases::compare(report, &cases.list, size);
    report.add("runs", runs as u64);
}

/// All sequences over `0..n` of a length.
pub fn sequences(n: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    (0..n.pow(len as u32)).map(move |mut k| {
        (0..len)
            .map(|_| {
                let d = k % n;
                k /= n;
                d
            })
            .collect()
    })
}

fn subsets<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
    (0..1_usize << items.len())
        .map(|m| items.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()).collect())
        .collect()
}

const KINDS: [&str; 2] = ["struct", "choice"];
const RULES: [&str; 3] = ["", "optional ", "asymmetric "];

// C10

/// Names in groups which only differ by letter case convention, and others which look similar.
pub const NAMES: &[&str] = &[
    "foo", "Foo", "FOO", "f_o_o", "F_o_o", "fOO", "foo_", "foo__bar", "fooBar", "foo_bar", "FooBar", "Foo_Bar", "foobar", "Foobar", "foo1", "foo_1",
    "Foo1", "foo_1_", "foo1bar", "foo_1bar", "foo1_bar", "$struct", "Struct", "$U64", "u64", "u_64", "x", "X", "é", "É", "ß", "ss", "SS", "名",
];

fn c10_names(thorough: bool) -> Cases {
    let mut out = Cases::default();
    for a in NAMES {
        for b in NAMES {
            for (ka, kb) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                out.text(&format!("{} {a} {{}}\n\n{} {b} {{}}\n", KINDS[ka], KINDS[kb]));
            }
            for k in KINDS {
                for (ra, rb) in [(0, 0), (1, 2)] {
                    out.text(&format!("{k} A {{\n    {}{a}: U64 = 0\n    {}{b}: Bool = 1\n}}\n", RULES[ra], RULES[rb]));
                }
            }
            // The same name in different types, or as a type and a field, or in different files.
            out.text(&format!("struct A {{\n    {a} = 0\n}}\n\nchoice B {{\n    {b} = 0\n}}\n"));
            out.text(&format!("struct {a} {{\n    {b} = 0\n}}\n"));
            out.tree(&[("main.t", &format!("import 'dep.t'\n\nstruct {a} {{}}\n")), ("dep.t", &format!("struct {b} {{}}\n"))]);
            // A reference under another convention.
            out.text(&format!("struct {a} {{}}\n\nstruct Holder {{\n    h: {b} = 0\n}}\n"));
            out.tree(&[("main.t", &format!("import 'dep.t' as {a}\n\nstruct Holder {{\n    h: {b}.T = 0\n}}\n")), ("dep.t", "struct T {}\n")]);
            out.tree(&[("main.t", &format!("import 'dep.t' as {a}\nimport 'dep2.t' as {b}\n")), ("dep.t", "struct T {}\n"), ("dep2.t", "struct T {}\n")]);
        }
    }
    // The position of the repetition among three.
    let three: &[&str] = if thorough { NAMES } else { &NAMES[..18] };
    for a in three {
        for b in three {
            for c in three {
                out.text(&format!("struct A {{\n    {a} = 0\n    {b} = 1\n    {c} = 2\n}}\n"));
                out.text(&format!("struct {a} {{}}\nchoice {b} {{}}\nstruct {c} {{}}\n"));
            }
        }
    }
    out
}

fn c10_indices(thorough: bool) -> Cases {
    let mut out = Cases::default();
    let big = ["4611686018427387903", "4611686018427387904", "18446744073709551615"];
    let mut indices = vec!["0", "1", "2", "3"];
    indices.extend(big);
    let deleted = ["0", "1", "2", "3", "4", "4611686018427387904"];
    for n in 0..=(if thorough { 4 } else { 3 }) {
        for s in sequences(indices.len(), n) {
            for (k, d) in subsets(&deleted).into_iter().enumerate() {
                let kind = KINDS[(k + n) % 2];
                let fields: String = s.iter().enumerate().map(|(i, x)| format!("    {}f{i}: U64 = {}\n", RULES[(i + k) % 3], indices[*x])).collect();
                let mut d = d;
                if k % 3 == 0 {
                    d.reverse();
                }
                let line = if d.is_empty() { String::new() } else { format!("    deleted {}\n", d.join(" ")) };
                out.text(&format!("{kind} A {{\n{fields}{line}}}\n"));
            }
        }
    }
    // A gap anywhere in longer lists, with any number of deleted indices above.
    for n in 1..=12_u64 {
        for hole in 0..=n {
            for split in 0..=n {
                let used: Vec<u64> = (0..=n).filter(|i| *i != hole && *i < split).collect();
                let gone: Vec<String> = (0..=n).filter(|i| *i != hole && *i >= split).map(|i| i.to_string()).collect();
                let fields: String = used.iter().rev().map(|i| format!("    f{i} = {i}\n")).collect();
                out.text(&format!("choice A {{\n{fields}    deleted {}\n}}\n", gone.join(" ")));
            }
        }
    }
    // One bad type among several, in several files.
    let good = "struct G {\n    a = 0\n}\n";
    for (i, bad) in ["struct B {\n    a = 1\n}\n", "struct B {\n    a = 0\n    b = 0\n}\n", "choice B {\n    a = 0\n    deleted 0\n}\n", "struct B {\n    a: Missing = 0\n}\n", "struct B {\n    a = 0\n    A = 1\n}\n", "struct G {}\n"]
        .iter()
        .enumerate()
    {
        for at in 0..3 {
            let text: String = (0..3).map(|k| if k == at { (*bad).to_owned() } else { good.replace('G', if k == 0 { "G" } else if k == 1 { "H" } else { "I" }) }).collect();
            out.text(&text);
            let files: Vec<(String, String)> = ["main.t", "a.t", "sub/b.t"]
                .iter()
                .enumerate()
                .map(|(k, n)| {
                    let head = match k {
                        0 => "import 'a.t'\n",
                        1 => "import 'sub/b.t'\nimport 'main.t'\n",
                        _ => "import '../a.t' as up\n",
                    };
                    ((*n).to_owned(), format!("{head}{good}{}", if k == at { if i == 5 { "choice G {}\n" } else { bad } } else { "" }))
                })
                .collect();
            out.tree(&files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect::<Vec<_>>());
        }
    }
    out
}

fn c10_types(thorough: bool) -> Cases {
    let mut out = Cases::default();
    let types = [
        "U64", "Foo", "foo", "Bar", "dep.Foo", "dep.Bar", "Dep.foo", "other.Foo", "far.Foo", "main.Foo", "[Foo]", "[[Bar]]", "[dep.Bar]", "[[dep.Foo]]", "$U64", "u64",
        "dep.Holder", "$choice", "A", "[[[Foo]]]", "[[[[dep.Foo]]]]", "[[[[[dep.Bar]]]]]",
    ];
    let mains = ["", "struct Foo {}\n", "choice Bar {}\nstruct $U64 {}\n", "struct $choice {}\nstruct Foo {\n    x: dep.Foo = 0\n}\n"];
    let deps = ["", "struct Foo {}\n", "choice Bar {\n    x: far.Foo = 0\n}\n", "struct Foo {\n    a: Bar = 0\n}\nstruct Bar {}\n", "import '../main.t'\nstruct Foo {\n    x: main.Foo = 0\n}\n"];
    let fars = ["", "struct Foo {}\n"];
    for t in types {
        for m in mains {
            for d in deps {
                for f in fars {
                    let heads = [("import 'sub/dep.t'\n", "import 'far.t'\n"), ("import 'sub/dep.t' as other\n", ""), ("import 'sub/dep.t'\nimport 'sub/far.t'\n", "import '../sub/far.t'\n"), ("", "")];
                    for (hm, hd) in heads {
                        for k in 0..(if thorough { 3 } else { 1 }) {
                            let holder = format!("{} Holder {{\n{}    {}h: {t} = {k}\n}}\n", KINDS[k % 2], (0..k).map(|i| format!("    f{i} = {i}\n")).collect::<String>(), RULES[k]);
                            out.tree(&[("main.t", &format!("{hm}{m}{holder}")), ("sub/dep.t", &format!("{hd}{d}")), ("sub/far.t", f)]);
                        }
                    }
                }
            }
        }
    }
    out
}

/// A rejected schema produces no output, whatever is wrong with it, and an accepted one does.
fn c10_outputs(report: &Report) {
    let wrong = [
        ("struct A {}\nstruct A {}\n", "a type twice"),
        ("struct A {\n    a = 0\n    a = 1\n}\n", "a field twice"),
        ("struct A {\n    a = 0\n    b = 0\n}\n", "an index twice"),
        ("struct A {\n    a = 0\n\n    deleted 0\n}\n", "a deleted index"),
        ("struct A {\n    a = 1\n}\n", "a gap"),
        ("struct A {\n    a: B = 0\n}\n", "an unknown type"),
        ("struct A {\n    a: b.B = 0\n}\n", "an unknown import"),
        ("struct A {\n    a: A = 0\n}\n", "a cycle"),
        ("struct A {\n    a 0\n}\n", "a syntax error"),
        ("struct A { ~ }\n", "a lexical error"),
        ("import 'missing.t'\n", "a missing import"),
        ("struct A {}\n", ""),
    ];
    let dir = cases::fresh_dir("outputs");
    for (text, what) in wrong {
        for in_file in ["main.t", "a.t", "sub/b.t"] {
            for existing in [false, true] {
                for both in [1, 2, 3] {
                    let _ = std::fs::remove_dir_all(&dir);
                    let files: Vec<(String, String)> = ["main.t", "a.t", "sub/b.t"]
                        .iter()
                        .zip(["import 'a.t'\n", "import 'sub/b.t'\n", "import '../a.t'\n"])
                        .map(|(n, head)| ((*n).to_owned(), format!("{head}{}", if *n == in_file { text } else { "" })))
                        .collect();
                    driver::write_files(&dir, &files);
                    if existing {
                        driver::write_files(&dir, &[("o.rs".into(), "old".into()), ("o.ts".into(), "old".into())]);
                    }
                    let mut args = vec!["generate", "main.t"];
                    if both & 1 != 0 {
                        args.extend(["--rust", if existing { "o.rs" } else { "out/o.rs" }]);
                    }
                    if both & 2 != 0 {
                        args.extend(["--typescript", if existing { "o.ts" } else { "out/o.ts" }]);
                    }
                    let ran = run_typical(&dir, &args);
                    report.add("output_runs", 1);
                    let rs = std::fs::read_to_string(dir.join(if existing { "o.rs" } else { "out/o.rs" })).ok();
                    let ts = std::fs::read_to_string(dir.join(if existing { "o.ts" } else { "out/o.ts" })).ok();
                    let old = existing.then(|| "old".to_owned());
                    let fine = if what.is_empty() {
                        ran.ok() && (rs != old) == (both & 1 != 0) && (ts != old) == (both & 2 != 0)
                    } else {
                        ran.code == Some(1) && rs == old && ts == old && !dir.join("out").exists()
                    };
                    let kept = files.iter().all(|(n, t)| std::fs::read_to_string(dir.join(n)).ok().as_deref() == Some(t));
                    if !fine || !kept {
                        let mut keep: Vec<_> = files.iter().map(|(n, t)| file(n, t)).collect();
                        keep.push(file("ARGS", format!("{args:?}")));
                        report.violation(&format!("{what} in {in_file}, {args:?}: outputs {:?} and {:?}, schemas {}; {}", rs.map(|t| t.len()), ts.map(|t| t.len()), if kept { "kept" } else { "changed" }, ran.show()), &keep);
                    }
                }
            }
        }
    }
    cases::remove(&dir);
}

pub fn c10(report: &Report) -> i32 {
    run(report, "cases_names", c10_names(report.thorough), 400);
    run(report, "cases_indices", c10_indices(report.thorough), 400);
    run(report, "cases_types", c10_types(report.thorough), 400);
    let mut large = Cases::default();
    for files in crate::large::all(report.thorough) {
        large.tree(&files.iter().map(|(n, t)| (n.as_str(), t.as_str())).collect::<Vec<_>>());
    }
    run(report, "cases_large", large, 40);
    c10_outputs(report);
    report.assume("the reference model of validity (lang.rs) is written from README.md");
    report.finish()
}

// C11

/// The text of one reference to a type, in some form.
fn edge(form: usize, target: &str) -> String {
    match form % 6 {
        0 => target.to_owned(),
        1 => format!("[{target}]"),
        2 => format!("[[{target}]]"),
        3 => format!("[[[{target}]]]"),
        4 => format!("[[[[[{target}]]]]]"),
        _ => target.to_owned(),
    }
}

/// The schema of a graph. `place[i]` is the file of node `i`; `form(i, k)` is the form of an edge.
fn graph_case(n: usize, edges: &[(usize, usize)], place: &[usize], form: impl Fn(usize) -> usize, names: &[&str]) -> Vec<(String, String)> {
    let files = place.iter().max().map_or(1, |m| m + 1);
    let paths = ["main", "a", "sub/b", "sub/c", "d"];
    let mut out = vec![];
    for fi in 0..files {
        let mut text = String::new();
        for other in 0..files {
            let used = edges.iter().any(|(a, b)| place[*a] == fi && place[*b] == other);
            if other != fi && (fi == 0 || used) {
                text += &format!("import '{}.t' as i{other}\n", mc::model::relative(paths[fi], paths[other]));
            }
        }
        for i in (0..n).filter(|i| place[*i] == fi) {
            let mut fields = String::new();
            for (k, (ei, (_, b))) in edges.iter().enumerate().filter(|(_, e)| e.0 == i).enumerate() {
                let f = form(ei);
                let target = if place[*b] == fi { names[*b].to_owned() } else { format!("i{}.{}", place[*b], names[*b]) };
                fields += &format!("    {}f{k}: {} = {k}\n", RULES[f % 3], edge(f / 3, &target));
            }
            text += &format!("{} {} {{\n{fields}}}\n", KINDS[(form(i) / 18) % 2], names[i]);
        }
        out.push((format!("{}.t", paths[fi]), text));
    }
    out
}

/// All ways to spread nodes over files: the first one is in file 0.
fn placements(n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                let m = p.iter().max().map_or(0, |m| m + 1);
                (0..=m).map(move |x| {
                    let mut q = p.clone();
                    q.push(x);
                    q
                })
            })
            .collect();
    }
    out
}

fn pairs(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect()
}

fn compare_graphs(report: &Report, what: &str, list: Vec<Vec<(String, String)>>) {
    report.add(what, list.len() as u64);
    report.add("graphs", list.len() as u64);
    report.add("runs", cases::compare(report, &list, 300) as u64);
}

pub fn c11(report: &Report) -> i32 {
    let names = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff"];
    let reversed = ["Ee", "Dd", "Cc", "Bb", "Aa", "A0"];
    // Up to two nodes, with every form of every edge.
    let mut list = vec![];
    for n in 1..=2 {
        let all = pairs(n);
        for place in placements(n) {
            for m in 0..1_usize << all.len() {
                let edges: Vec<_> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| *e).collect();
                let forms = if edges.len() <= 2 || report.thorough { 36_usize.pow(edges.len().min(2) as u32) } else { 36 };
                for f in 0..forms {
                    list.push(graph_case(n, &edges, &place, |e| (f / 36_usize.pow((e % 2) as u32)) % 36 + e / 2, &names));
                }
            }
        }
    }
    compare_graphs(report, "graphs_2_nodes_all_forms", list);
    // Three nodes, in all files, with some forms.
    let mut list = vec![];
    for place in placements(3) {
        let all = pairs(3);
        for m in 0..1_usize << all.len() {
            let edges: Vec<_> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| *e).collect();
            for f in 0..if report.thorough { 6 } else { 2 } {
                let form = move |e: usize| (m + e * 7 + f * 13) % 36;
                list.push(graph_case(3, &edges, &place, form, if f % 2 == 0 { &names } else { &reversed }));
            }
        }
    }
    compare_graphs(report, "graphs_3_nodes", list);
    // Four nodes: all graphs.
    let all = pairs(4);
    let places = placements(4);
    for part in 0..8_usize {
        let list: Vec<Vec<(String, String)>> = (0..1_usize << all.len())
            .filter(|m| m % 8 == part)
            .filter(|m| report.thorough || m.count_ones() <= 6)
            .map(|m| {
                let edges: Vec<_> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| *e).collect();
                let form = move |e: usize| (m / 3 + e * 5) % 36;
                graph_case(4, &edges, if m % 5 == 0 { &places[m / 5 % places.len()] } else { &[0, 0, 0, 0] }, form, if m % 2 == 0 { &names } else { &reversed })
            })
            .collect();
        compare_graphs(report, "graphs_4_nodes", list);
    }
    // Five and six nodes with few edges (every node points to at most one other: chains into cycles).
    for n in 5..=(if report.thorough { 6 } else { 5 }) {
        let list: Vec<Vec<(String, String)>> = sequences(n + 1, n)
            .map(|s| {
                let edges: Vec<_> = s.iter().enumerate().filter(|(_, t)| **t < n).map(|(i, t)| (i, *t)).collect();
                graph_case(n, &edges, &[0; 6][..n], |e| e, &names)
            })
            .collect();
        for part in list.chunks(20_000) {
            compare_graphs(report, "graphs_of_functions", part.to_vec());
        }
    }
    if report.thorough {
        // Five nodes with up to five edges.
        let all = pairs(5);
        let masks: Vec<u32> = (0..1_u32 << 25).filter(|m| m.count_ones() <= 5).collect();
        for part in masks.chunks(20_000) {
            let list: Vec<Vec<(String, String)>> = part
                .iter()
                .map(|m| {
                    let edges: Vec<_> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, e)| *e).collect();
                    graph_case(5, &edges, &[0; 5], |e| e, &names)
                })
                .collect();
            compare_graphs(report, "graphs_5_nodes", list);
        }
    }
    // Long chains, closed and open; layered graphs with an exponential number of paths.
    for n in [10_usize, 100, 1000] {
        for closed in [None, Some(0), Some(n / 2), Some(n - 1)] {
            let text: String = (0..n)
                .map(|i| {
                    let next = if i + 1 < n { Some(i + 1) } else { closed };
                    format!("struct T{i} {{\n{}}}\n", next.map_or(String::new(), |t| format!("    x: [T{t}] = 0\n")))
                })
                .collect();
            single(report, &Case::one(&text), "chains");
        }
    }
    for width in [2_usize, 5] {
        for depth in [10_usize, 30, 60] {
            for closed in [false, true] {
                let mut text = String::new();
                for l in 0..depth {
                    for w in 0..width {
                        text += &format!("choice L{l}x{w} {{\n");
                        if l + 1 < depth {
                            for v in 0..width {
                                text += &format!("    f{v}: L{}x{v} = {v}\n", l + 1);
                            }
                        } else if closed && w == width - 1 {
                            text += "    back: L0x0 = 0\n";
                        }
                        text += "}\n";
                    }
                }
                single(report, &Case::one(&text), "layered");
            }
        }
    }
    known_depth(report, "D26", &chain(100_000), "a chain of 100,000 types");
    report.assume("the reference model finds cycles by repeatedly dropping types which refer to no remaining type");
    report.finish()
}

fn chain(n: usize) -> String {
    (0..n).map(|i| format!("struct A{i} {{ x: A{} = 0 }}\n", i + 1)).chain([format!("struct A{n} {{}}\n")]).collect()
}

fn single(report: &Report, case: &Case, what: &str) {
    report.add(what, 1);
    let (v, _) = alone(case, "generate");
    cases::check_verdict(report, case, &v);
}

/// An input which is so deep that the tool runs out of stack: a listed finding.
fn known_depth(report: &Report, id: &str, text: &str, what: &str) {
    let case = Case { files: vec![("main.t".into(), text.to_owned())], valid: true, why: String::new() };
    let (v, ran) = alone(&case, "generate");
    report.add("designated_deep_inputs", 1);
    match v {
        Verdict::Accepted => {}
        _ if ran.signal == Some(6) && ran.err_text().contains("has overflowed its stack") => {
            report.finding(id, 1, &format!("{what}: {}", mc::util::clip(&ran.err_text(), 200)), &[]);
        }
        v => report.violation(&format!("{what}: {v:?}"), &[]),
    }
}

// C12

const TOKENS: &[&str] = &[
    "{", "}", "=", ":", "0", "x", "A", "struct", "U64", "[", "]", ".", "optional", "asymmetric", "deleted", "# c\n", "import", "'p.t'", "as", "choice", "$as", "2",
];

/// Where sequences of tokens are tried out.
const CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("struct A {", "}"),
    ("struct A { x:", "= 0 }"),
    ("struct A { x", "= 0 }"),
    ("struct A { x = 0", "}"),
    ("choice A { x = 0 deleted", "}"),
    ("import 'p.t'", "struct B { }"),
    ("struct A { } #c\n", ""),
    ("struct A { x", ""),
];

fn with_import(out: &mut Cases, text: &str) {
    if text.contains("p.t") {
        out.tree(&[("main.t", text), ("p.t", "struct A {}\n")]);
    } else {
        out.text(text);
    }
}

fn c12_tokens(report: &Report) {
    let longest = if report.thorough { 4 } else { 3 };
    for (before, after) in CONTEXTS {
        for len in 0..=longest {
            let mut out = Cases::default();
            for s in sequences(TOKENS.len(), len) {
                let words: Vec<&str> = s.iter().map(|i| TOKENS[*i]).collect();
                with_import(&mut out, &format!("{before} {} {after}", words.join(" ")));
                if len <= 2 {
                    with_import(&mut out, &format!("{before}{}{after}", words.concat()));
                    with_import(&mut out, &format!("{before}\n{}\n{after}", words.join("\n")));
                }
            }
            run(report, "cases_tokens", out, 200);
        }
    }
    // Every valid-looking schema with one token dropped, doubled, swapped with the next one or
    // replaced by any other.
    let models = [
        "# f\n\nimport 'p.t' import 'p.t' as q # c\nstruct A { # d\noptional x : [ p . A ] = 0 asymmetric y = 1 deleted 2 3 } choice B { z : U64 = 0 }",
        "choice C { a : [ [ String ] ] = 1 b : D = 0 } struct D { $as : Bytes = 0 }",
    ];
    for m in models {
        let words: Vec<String> = split_tokens(m);
        let mut out = Cases::default();
        let mut add = |w: &[String]| with_import(&mut out, &w.join(" "));
        add(&words);
        for i in 0..words.len() {
            let mut w = words.clone();
            w.remove(i);
            add(&w);
            let mut w = words.clone();
            w.insert(i, words[i].clone());
            add(&w);
            add(&words[..i]);
            if i + 1 < words.len() {
                let mut w = words.clone();
                w.swap(i, i + 1);
                add(&w);
            }
            for t in TOKENS {
                let mut w = words.clone();
                w[i] = (*t).to_owned();
                add(&w);
                let mut w = words.clone();
                w.insert(i, (*t).to_owned());
                add(&w);
                if report.thorough {
                    for j in i + 1..words.len() {
                        let mut v = w.clone();
                        v.remove(j);
                        add(&v);
                    }
                }
            }
        }
        run(report, "cases_token_edits", out, 200);
    }
}

fn split_tokens(text: &str) -> Vec<String> {
    mc::lang::tokenize(text).unwrap().iter().map(|t| if matches!(t.tok, mc::lang::Tok::Comment(_)) { format!("{}\n", &text[t.start..t.end]) } else { text[t.start..t.end].to_owned() }).collect()
}

const CHARS: &[char] = &[
    'a', 'Z', '_', '$', '0', '9', '\'', '#', '\n', '\r', ' ', '\t', ':', '.', '=', '{', '}', '[', ']', '-', 'é', '\u{301}', '\u{200d}', '😀', '\0', '\u{feff}', '\u{2028}', '٣', '"', '/',
];

const CHAR_CONTEXTS: &[(&str, &str)] = &[
    ("", ""),
    ("struct A{", "}"),
    ("struct A{x", "=0}"),
    ("struct ", "{}"),
    ("struct A{x=0", "}"),
    ("struct A{x:", "=0}struct a{}"),
    ("choice A{# ", "\nx=0}"),
    ("import 'p", "p.t'"),
    ("struct A{x:U64", "=0}"),
    ("struct A{x=0 deleted ", "1}"),
    ("import 'p.t' as ", ""),
    ("# c", "struct A {}"),
];

fn c12_chars(report: &Report) {
    let longest = if report.thorough { 3 } else { 2 };
    for (before, after) in CHAR_CONTEXTS {
        let mut out = Cases::default();
        for len in 0..=longest {
            for s in sequences(CHARS.len(), len) {
                let t: String = s.iter().map(|i| CHARS[*i]).collect();
                with_import(&mut out, &format!("{before}{t}{after}"));
            }
        }
        run(report, "cases_chars", out, 200);
    }
    // Longer strings over few characters: comments, paths, identifiers, numbers.
    let groups: &[(&str, usize)] = &[("#\n x", 6), ("#\n\r\t{", 5), ("'a/.", 5), ("$_aA1", 5), ("0 9a", 6), ("'\n#a", 5)];
    for (chars, len) in groups {
        let chars: Vec<char> = chars.chars().collect();
        let mut out = Cases::default();
        for n in 0..=(*len + usize::from(report.thorough)) {
            for s in sequences(chars.len(), n) {
                let t: String = s.iter().map(|i| chars[*i]).collect();
                with_import(&mut out, &t);
                with_import(&mut out, &format!("{t}struct A {{}}"));
                with_import(&mut out, &format!("struct A {{{t}b = 0}}"));
            }
        }
        run(report, "cases_strings", out, 200);
    }
    // Numbers which would be small if some of their bits or digits were dropped, with zeros before them.
    let mut out = Cases::default();
    for zeros in [0, 1, 3, 19, 20, 40] {
        let z = "0".repeat(zeros);
        let mut numbers: Vec<u128> = (0..=12).collect();
        for w in 0..=120_u32 {
            numbers.extend([(1_u128 << w) - 1, 1 << w, (1 << w) + 1, (1 << w) + 2]);
            for k in [2, 3, 5] {
                numbers.extend([k << w, (k << w) + 1]);
            }
        }
        for d in 0..=36_u32 {
            numbers.extend([10_u128.pow(d) - 1, 10_u128.pow(d), 10_u128.pow(d) + 1]);
        }
        for n in numbers {
            out.text(&format!("struct A {{ x = {z}{n} }}"));
            out.text(&format!("choice A {{ x = 0 y = {z}{n} }}"));
            out.text(&format!("struct A {{ x = 1 y = {z}{n} }}"));
            out.text(&format!("struct A {{ x = 0 deleted {z}{n} }}"));
            out.text(&format!("choice A {{ deleted {z}{n} 1 }}"));
        }
    }
    run(report, "cases_numbers", out, 200);
    // Words which resemble keywords, as every kind of name.
    let mut out = Cases::default();
    let keywords = ["as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "required", "S64", "String", "struct", "U64", "Unit"];
    let mut words: Vec<String> = ["Self", "self", "super", "crate", "type", "fn", "class", "default", "unknown", "U32", "S32", "F32", "u64", "bool", "string", "bytes", "unit", "true", "false", "null", "None", "r#as"].map(str::to_owned).into();
    for k in keywords {
        let (first, rest) = k.split_at(1);
        let (but_last, last) = k.split_at(k.len() - 1);
        words.extend([k.to_owned(), format!("{k}x"), format!("x{k}"), format!("{k}1"), format!("{k}_"), format!("_{k}"), format!("{k}{k}"), k.to_uppercase(), k.to_lowercase(), rest.to_owned(), but_last.to_owned()]);
        words.extend([format!("{}{rest}", first.to_uppercase()), format!("{}{rest}", first.to_lowercase()), format!("{but_last}{}", last.to_uppercase()), format!("{first}_{rest}"), format!("{first} {rest}")]);
        words.extend([format!("${k}"), format!("$${k}"), format!("$ {k}"), format!("${k}x"), format!("{k}$"), format!("{first}${rest}"), format!("{k}é"), format!("é{k}"), format!("{k}-"), format!("{k}.{k}")]);
    }
    words.sort();
    words.dedup();
    for w in &words {
        for text in [
            format!("struct {w} {{}}"),
            format!("choice {w} {{ a = 0 }}"),
            format!("struct A {{ {w} = 0 }}"),
            format!("struct A {{ {w}: Bool = 0 }}"),
            format!("struct A {{ optional {w} = 0 }}"),
            format!("struct A {{ {w} a = 0 }}"),
            format!("struct A {{ a: {w} = 0 }}"),
            format!("struct A {{ a: [{w}] = 0 }} struct {w} {{}}"),
            format!("struct A {{ a = 0 {w} 1 }}"),
            format!("struct A {{ a = 0 deleted {w} }}"),
            format!("struct A {{ a = {w} }}"),
            format!("{w} A {{}}"),
            format!("{w} 'p.t'"),
            format!("import 'p.t' as {w}"),
            format!("import 'p.t' {w} b"),
            format!("import 'p.t' as {w} struct A {{ a: {w}.X = 0 }}"),
            format!("import 'p.t' struct A {{ a: p.{w} = 0 }}"),
            w.clone(),
        ] {
            with_import(&mut out, &text);
        }
    }
    run(report, "cases_words", out, 200);
    // Every character of Unicode on its own: as the start and as a part of a name, and between tokens.
    let mut out = Cases::default();
    for c in (0..=0x0010_ffff_u32).filter_map(char::from_u32) {
        // Everything which is special somehow, and a share of the rest.
        let special = c.is_alphabetic() || c.is_numeric() || c.is_whitespace() || c.is_control();
        let sampled = (c as u32) < 0x3000 || (c as u32) % 97 == 0;
        let letter_block = c.is_alphabetic() && (0x3400..0xd7a4).contains(&(c as u32)) || (c as u32) > 0x1_7000;
        if (special && (!letter_block || report.thorough)) || sampled {
            if !report.thorough && (c as u32) > 0x1000 && (c as u32) % 3 != 0 {
                continue;
            }
            out.text(&format!("struct A {{ {c}b = 0 }}"));
            out.text(&format!("struct A {{ b{c} = 0 }}"));
        }
    }
    run(report, "cases_unicode", out, 200);
}

/// Inputs which are not texts, or large.
fn c12_files(report: &Report) {
    let dir = cases::fresh_dir("bytes");
    // All short byte strings over a byte alphabet, as contents of the schema and of an import.
    let bytes: &[u8] = &[0x00, 0x0a, 0x23, 0x24, 0x27, 0x61, 0x7f, 0x80, 0xbf, 0xc3, 0xa9, 0xe2, 0xed, 0xf0, 0xff];
    let mut list: Vec<Vec<u8>> = vec![];
    for n in 0..=(if report.thorough { 3 } else { 2 }) {
        for s in sequences(bytes.len(), n) {
            list.push(s.iter().map(|i| bytes[*i]).collect());
        }
    }
    par_map(driver::THREADS, &list, |i, b| {
        for (k, (before, after)) in [("", ""), ("struct A {} # ", "\n"), ("struct A { x", " = 0 }")].iter().enumerate() {
            for imported in [false, true] {
                let mut contents = before.as_bytes().to_vec();
                contents.extend(b);
                contents.extend(after.as_bytes());
                let d = dir.join(format!("{i}-{k}-{imported}"));
                driver::write_files(&d, &[("main.t".into(), "import 'x.t'\n".into())]);
                std::fs::write(d.join("x.t"), &contents).unwrap();
                let ran = run_typical(&d, &["generate", if imported { "main.t" } else { "x.t" }]);
                report.add("byte_strings", 1);
                let expected = String::from_utf8(contents.clone()).is_ok_and(|t| Case::one(&t).valid);
                if ran.crash().is_some() || ran.ok() != expected {
                    report.violation(&format!("contents {}: expected to be {}; {}", mc::util::hex_short(&contents), if expected { "accepted" } else { "rejected" }, ran.show()), &[file("x.t", &contents)]);
                }
                cases::remove(&d);
            }
        }
    });
    cases::remove(&dir);
    // Large inputs of each kind.
    for n in if report.thorough { vec![100, 1000, 10_000, 100_000] } else { vec![100, 1000, 10_000] } {
        let many = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let texts = [
            "x".repeat(n),
            "\n".repeat(n),
            "#\n".repeat(n),
            format!("# {}\n", "word ".repeat(n)),
            format!("# {}\nstruct A {{}}\n", "x".repeat(n)),
            format!("struct {} {{}}\n", "x".repeat(n)),
            format!("struct {} {{}}\n", "aB".repeat(n)),
            format!("struct A {{ x = {}0 }}\n", "0".repeat(n)),
            format!("struct A {{ x = {} }}\n", "9".repeat(n)),
            format!("struct A {{ deleted {} }}\n", (0..n.min(10_000)).map(|i| format!("{i} ")).collect::<String>()),
            format!("import '{}.t'\n", "x".repeat(n)),
            format!("import '{}p.t'\n", "./".repeat(n.min(1500))),
            "}".repeat(n),
            "struct ".repeat(n),
            "'".repeat(n),
            "é".repeat(n),
            "~".repeat(n.min(2000)),
            "$".repeat(n.min(2000)),
            format!("struct A {{ x: {}U64{} = 0 }}\n", "[".repeat(n.min(100)), "]".repeat(n.min(100))),
            many(&|i| format!("struct A{i} {{}}\n")),
            format!("struct A {{\n{}}}\n", many(&|i| format!("f{i} = {i}\n"))),
        ];
        par_map(driver::THREADS, &texts, |_, t| {
            let case = Case::tree(vec![("main.t".into(), t.clone()), ("p.t".into(), String::new())]);
            single(report, &case, "large_inputs");
        });
    }
    // Files of more than 64 KiB and of more than 1 MiB, of which the last part matters.
    for size in if report.thorough { vec![5000, 66_000, 132_000, 1_100_000, 17_000_000] } else { vec![5000, 66_000, 1_100_000] } {
        let fill = [
            "# A line of a comment.\n".repeat(size / 23),
            format!("#{}\n", " word".repeat(size / 5)),
            "\n".repeat(size),
            (0..size / 40).map(|i| format!("struct Filler{i:08} {{\n    a: U64 = 0\n}}\n\n")).collect::<String>(),
            "# é€😀\n".repeat(size / 12),
        ];
        let ends = ["", "~", "struct", "struct B {}", "struct B {} struct B {}", "struct B { a = 0 b = 0 }", "struct B { a = 0 }", "# a", "import 'q.t'", "struct B { a: C = 0 }", "é"];
        for f in fill.iter().take(if size > 10_000_000 { 3 } else { 5 }) {
            let texts: Vec<String> = ends.iter().map(|e| format!("{f}{e}")).collect();
            par_map(driver::THREADS, &texts, |i, t| {
                single(report, &Case::tree(vec![("main.t".into(), t.clone())]), "large_files");
                if i % 3 == 0 {
                    single(report, &Case::tree(vec![("main.t".into(), "import 'p.t'\nstruct A { b: p.B = 0 }\n".into()), ("p.t".into(), t.clone())]), "large_files");
                }
            });
        }
    }
    known_depth(report, "D25", &format!("struct A {{ x: {}U64{} = 0 }}\n", "[".repeat(100_000), "]".repeat(100_000)), "an array type nested 100,000 times");
}

pub fn c12(report: &Report) -> i32 {
    c12_tokens(report);
    c12_chars(report);
    c12_files(report);
    report.assume("the reference tokenizer and parser (lang.rs) are written from README.md; characters are letters and digits as the standard library of Rust has it");
    report.finish()
}
