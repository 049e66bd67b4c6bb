//! Large schemas: very many fields, types, imports, files, directories, mistakes, long names and long
//! lines. Each of the other families explores everything small; here each quantity goes beyond every
//! threshold an implementation may have, with what matters at every interesting position.
pub type Files = Vec<(String, String)>;

fn sizes(thorough: bool) -> &'static [usize] {
    if thorough {
        &[34, 66, 130, 258, 300, 1030]
    } else {
        &[34, 130, 300]
    }
}

/// Pairs of positions among some number of things.
fn places(n: usize) -> Vec<(usize, usize)> {
    let mut out = vec![(0, n - 1), (0, 1), (n - 2, n - 1), (n / 2, n - 1), (0, n / 2), (1, 32), (31, 33)];
    for p in [64, 100, 128, 256, 1024] {
        if p + 1 < n {
            out.extend([(p - 1, p), (p, p + 1), (0, p)]);
        }
    }
    out
}

fn one(text: String) -> Files {
    vec![("main.t".into(), text)]
}

/// A name which is not like the others.
fn name(i: usize) -> String {
    format!("f{i}x")
}

/// One type with many fields: good, or with a mistake.
fn fields(n: usize, out: &mut Vec<Files>) {
    let build = |kind: &str, change: &dyn Fn(&mut Vec<(String, String, String)>), tail: &str| -> Files {
        let mut list: Vec<(String, String, String)> = (0..n).map(|i| (name(i), ["U64", "String", "[Bool]", "Other"][i % 4].to_owned(), i.to_string())).collect();
        change(&mut list);
        let body: String = list.iter().enumerate().map(|(i, (a, t, k))| format!("    {}{a}: {t} = {k}\n", ["", "optional ", "asymmetric "][i % 3])).collect();
        one(format!("{kind} Big {{\n{body}{tail}}}\n\nstruct Other {{}}\n"))
    };
    for (p, (i, j)) in places(n).into_iter().enumerate() {
        let kind = ["struct", "choice"][p % 2];
        out.push(build(kind, &|l| l[j].0 = name(i), ""));
        out.push(build(kind, &|l| l[j].0 = format!("F{i}X"), ""));
        out.push(build(kind, &|l| l[j].2 = i.to_string(), ""));
        out.push(build(kind, &|l| l[i].2 = (n + 1).to_string(), ""));
        out.push(build(kind, &|l| l[i].2 = (n + 1).to_string(), &format!("\n    deleted {i}\n")));
        out.push(build(kind, &|l| l[i].2 = n.to_string(), &format!("\n    deleted {i}\n")));
        out.push(build(kind, &|_| (), &format!("\n    deleted {n} {i}\n")));
        out.push(build(kind, &|_| (), &format!("\n    deleted {n}\n")));
        out.push(build(kind, &|l| l[j].1 = "Missing".into(), ""));
        out.push(build(kind, &|l| l[j].1 = "[[other.Other]]".into(), ""));
        out.push(build(kind, &|l| l[j].1 = "Big".into(), ""));
        out.push(build(kind, &|l| l[j].1 = "[Big]".into(), ""));
        // Several mistakes at a distance.
        out.push(build(kind, &|l| (l[i].1, l[j].1) = ("Missing".into(), "Absent".into()), ""));
        out.push(build(kind, &|l| (l[i].0, l[j].2) = (name((i + j) / 2 + 1), i.to_string()), ""));
        // Syntax.
        out.push(build(kind, &|l| l[j].2 = "zero".into(), ""));
        out.push(build(kind, &|l| l[j].1 = "[U64".into(), ""));
        out.push(build(kind, &|l| l[j].0 = "struct".into(), ""));
    }
    // All of them wrong, and none of them.
    for kind in ["struct", "choice"] {
        out.push(build(kind, &|_| (), ""));
        out.push(build(kind, &|l| l.reverse(), ""));
        out.push(build(kind, &|l| l.iter_mut().for_each(|f| f.0 = "same".into()), ""));
        out.push(build(kind, &|l| l.iter_mut().for_each(|f| f.2 = "0".into()), ""));
        out.push(build(kind, &|l| l.iter_mut().for_each(|f| f.1 = "Missing".into()), ""));
        out.push(build(kind, &|l| l.truncate(n / 2), &format!("\n    deleted {}\n", (n / 2..n).map(|i| i.to_string()).collect::<Vec<_>>().join(" "))));
        out.push(build(kind, &|l| l.truncate(n / 2), &format!("\n    deleted {}\n", (n / 2 + 1..n).map(|i| i.to_string()).collect::<Vec<_>>().join(" "))));
        out.push(build(kind, &|l| l.truncate(n / 2), &format!("\n    deleted {}\n", (n / 2..n).rev().map(|i| if i == n - 3 { n } else { i }.to_string()).collect::<Vec<_>>().join(" "))));
    }
}

/// One file with many types: good, or with a mistake.
fn types(n: usize, out: &mut Vec<Files>) {
    let build = |change: &dyn Fn(&mut Vec<(String, String)>)| -> Files {
        // Each refers to the one before it and to the one after next, without cycles.
        let mut list: Vec<(String, String)> = (0..n).map(|i| (format!("T{i}x"), if i > 0 { format!("T{}x", i - 1) } else { "U64".into() })).collect();
        change(&mut list);
        one(list.iter().enumerate().map(|(i, (a, t))| format!("{} {a} {{\n    a: {t} = 0\n}}\n\n", ["struct", "choice"][i % 2])).collect())
    };
    for (i, j) in places(n) {
        out.push(build(&|l| l[j].0 = format!("T{i}x")));
        out.push(build(&|l| l[j].0 = format!("t_{i}X")));
        out.push(build(&|l| l[j].0 = format!("t{i}X")));
        out.push(build(&|l| l[j].1 = format!("T{i}_")));
        // A cycle of this length, or none.
        out.push(build(&|l| l[i].1 = format!("T{j}x")));
        out.push(build(&|l| l[j].1 = "Bool = 0\n    b 1".into()));
        out.push(build(&|l| (l[i].1, l[j].1) = ("Missing".into(), "dep.Absent".into())));
    }
    out.push(build(&|_| ()));
    out.push(build(&|l| l.reverse()));
    out.push(build(&|l| l.iter_mut().for_each(|t| t.0 = "Same".into())));
    out.push(build(&|l| l.iter_mut().for_each(|t| t.1 = "Missing".into())));
    out.push(build(&|l| l.iter_mut().enumerate().for_each(|(i, t)| t.1 = format!("T{}x", i ^ 1))));
}

/// One file with many imports: good, or with a mistake.
fn imports(n: usize, out: &mut Vec<Files>) {
    let n = n.min(300);
    let build = |change: &dyn Fn(&mut Vec<(String, String)>, &mut Files)| -> Files {
        // The name under which it is known, and the path.
        let mut list: Vec<(String, String)> = (0..n).map(|i| (format!("m{i}x"), format!("{}f{i}.t", ["", "sub/", "sub/../"][i % 3]))).collect();
        let mut deps: Files = (0..n).map(|i| (format!("{}f{i}.t", if i % 3 == 1 { "sub/" } else { "" }), format!("struct T{i}x {{\n    a: U64 = 0\n}}\n"))).collect();
        change(&mut list, &mut deps);
        let head: String = list.iter().map(|(a, p)| format!("import '{p}' as {a}\n")).collect();
        let body: String = (0..n).map(|i| format!("    f{i}x: m{i}x.T{i}x = {i}\n")).collect();
        let mut files = one(format!("{head}\nstruct Main {{\n{body}}}\n"));
        files.extend(deps);
        files
    };
    for (i, j) in places(n) {
        out.push(build(&|l, _| l[j].0 = format!("m{i}x")));
        out.push(build(&|l, _| l[j].1 = "missing.t".into()));
        out.push(build(&|l, _| l[j].1 = l[i].1.clone()));
        out.push(build(&|_, d| d[j].1 = "struct T {\n    a = 0\n    b 1\n}\n".into()));
        out.push(build(&|_, d| d[j].1 = "\n\nstruct T {\n    a = 0\n    b = 2\n}\n".into()));
        out.push(build(&|_, d| d[j].1 = format!("import '{}main.t' as back\n\nstruct T{j}x {{\n    a: back.Main = 0\n}}\n", if j % 3 == 1 { "../" } else { "" })));
        out.push(build(&|_, d| (d[i].1, d[j].1) = ("struct T {".into(), "struct {}\n".into())));
        out.push(build(&|l, d| d[j].0 = d[j].0.replace(&l[j].1.rsplit('/').next().unwrap().to_owned(), "else.t")));
    }
    out.push(build(&|_, _| ()));
    out.push(build(&|l, _| l.reverse()));
    out.push(build(&|l, _| l.iter_mut().for_each(|x| x.0 = "same".into())));
    out.push(build(&|_, d| d.iter_mut().enumerate().for_each(|(i, x)| x.1 = format!("{}struct T{{\n a 0 }}\n", "\n".repeat(i)))));
    out.push(build(&|_, d| d.iter_mut().enumerate().for_each(|(i, x)| x.1 = format!("{}struct T{i}x{{\n a = 1 }}\n", "\n".repeat(i)))));
}

/// A chain of files, in directories which go deeper or not: good, or with a mistake in one of them.
fn chains(n: usize, out: &mut Vec<Files>) {
    let build = |deep: bool, change: &dyn Fn(&mut Files)| -> Files {
        let mut files: Files = (0..n)
            .map(|i| {
                let dir: String = if deep { (0..i).map(|k| format!("d{}/", k % 7)).collect() } else { String::new() };
                let next = if deep { format!("d{}/f{}.t", i % 7, i + 1) } else { format!("f{}.t", i + 1) };
                let (head, ty) = if i + 1 < n { (format!("import '{next}' as next\n\n"), format!("next.T{}x", i + 1)) } else { (String::new(), "Bool".into()) };
                (if i == 0 { "main.t".into() } else { format!("{dir}f{i}.t") }, format!("{head}struct T{i}x {{\n    a: {ty} = 0\n}}\n"))
            })
            .collect();
        change(&mut files);
        files
    };
    for deep in [false, true] {
        if deep && n > 40 {
            continue;
        }
        for k in [0, 1, n / 2, n - 2, n - 1] {
            out.push(build(deep, &|f| f[k].1 += "struct {\n"));
            out.push(build(deep, &|f| f[k].1 += "struct More {\n    a = 1\n}\n"));
            out.push(build(deep, &|f| f[k].1 += "import 'x.t'\n"));
            out.push(build(deep, &|f| f[k].1 = format!("import 'nothing.t'\n{}", f[k].1)));
            out.push(build(deep, &|f| {
                let up = if deep { "../".repeat(k) } else { String::new() };
                f[k].1 = format!("import '{up}main.t' as back\n{}", f[k].1).replace("= 0\n", "= 0\n    b: back.T0x = 1\n");
            }));
            out.push(build(deep, &|f| {
                f.remove(k.max(1));
            }));
        }
        out.push(build(deep, &|_| ()));
    }
}

/// Mistakes far down, and far to the right.
fn far(n: usize, out: &mut Vec<Files>) {
    let n = n * 4;
    for bad in ["struct A { a 0 }", "struct A { a = 1 }", "struct A { a: B = 0 }", "struct A { a = 0 a = 1 }", "struct A {} struct A {}", "struct A { a: A = 0 }", "import 'nope.t'", "~", "struct A { a = 0 }"] {
        out.push(one(format!("{}{bad}\n", "\n".repeat(n))));
        out.push(one(format!("{}{bad}\n", " ".repeat(n))));
        out.push(one(format!("{}{bad}\n", "# A line.\n#\n".repeat(n / 2))));
        out.push(one(format!("{bad}{}\n", "\n".repeat(n))));
        out.push(one(format!("{}\n{bad}", format!("# {}", "word ".repeat(n)))));
        out.push(one(bad.split(' ').collect::<Vec<_>>().join(&"\n".repeat(n / 8))));
        out.push(one(format!("{}{bad}\n", (0..n / 4).map(|i| format!("choice Long{i}x {{ {} }}\n", (0..3).map(|k| format!("a{k} = {k} ")).collect::<String>())).collect::<String>())));
    }
}

/// Long names, which differ in few letters or none.
fn long_names(n: usize, out: &mut Vec<Files>) {
    let x = "x".repeat(n);
    let words = "ab_".repeat(n / 3);
    let pascal = "Ab".repeat(n / 3);
    let pairs = [
        (format!("{x}a"), format!("{x}b")),
        (format!("{x}a"), format!("{x}a")),
        (format!("{words}c"), format!("{pascal}C")),
        (format!("{words}c"), format!("{pascal}D")),
        (format!("a{x}"), format!("b{x}")),
        (format!("{words}c"), format!("{}c", words.replacen('_', "", 1))),
        (x.clone(), x[1..].to_owned()),
        (format!("{x}é"), format!("{x}É")),
    ];
    for (a, b) in pairs {
        out.push(one(format!("struct A {{\n    {a}: U64 = 0\n    {b}: Bool = 1\n}}\n")));
        out.push(one(format!("struct {a} {{}}\n\nchoice {b} {{}}\n")));
        out.push(one(format!("struct {a} {{}}\n\nchoice H {{\n    h: {b} = 0\n}}\n")));
        out.push(vec![("main.t".into(), format!("import 'dep.t' as {a}\nimport 'dep.t' as {b}\n")), ("dep.t".into(), "struct A {}\n".into())]);
        out.push(vec![("main.t".into(), format!("import 'dep.t' as {a}\n\nstruct H {{\n    h: {b}.A = 0\n}}\n")), ("dep.t".into(), "struct A {}\n".into())]);
    }
    if n <= 200 {
        out.push(vec![("main.t".into(), format!("import '{x}.t'\n\nstruct H {{\n    h: {x}.A = 0\n}}\n")), (format!("{x}.t"), "struct A {}\n".into())]);
        out.push(vec![("main.t".into(), format!("import '{x}/{x}.t'\n\nstruct H {{\n    h: {x}.A = 0\n}}\n")), (format!("{x}/{x}.t"), "struct A {}\n".into())]);
    }
}

/// Long comments.
fn comments(n: usize, out: &mut Vec<Files>) {
    for shape in 0..4 {
        let text: String = (0..n)
            .map(|i| match shape {
                0 => format!("# Line {i} of it.\n"),
                1 => format!("# Paragraph {i} of it.\n#\n"),
                2 => format!("#{}{}\n", " ".repeat(i % 9), "word ".repeat(i % 37)),
                _ => format!("#{}\n", "w".repeat(i)),
            })
            .collect();
        out.push(one(format!("{text}\nstruct A {{\n    a = 0\n}}\n")));
        out.push(one(format!("{text}struct A {{\n{text}    a = 0\n\n{text}    b = 1\n}}\n\n{text}choice B {{}}\n")));
        out.push(one(text));
    }
}

/// An exact number of mistakes.
fn counts(n: usize, out: &mut Vec<Files>) {
    let many = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    out.push(one(many(&|i| format!("struct T{i}x {{\n    a: Missing{i}x = 0\n}}\n\n"))));
    out.push(one(format!("struct A {{\n{}}}\n", many(&|i| format!("    a{i}x: [Missing] = {i}\n")))));
    out.push(one(many(&|_| "~\n".into())));
    out.push(one(many(&|i| format!("struct T{i}x {{\n    a {i}\n}}\n\n"))));
    out.push(one(many(&|i| format!("import 'f{i}x.t'\n"))));
    out.push(one(many(&|i| format!("choice T{i}x {{\n    a: T{i}x = 0\n}}\n\n"))));
    let mut files = one(many(&|i| format!("import 'f{i}x.t'\n")));
    files.extend((0..n).map(|i| (format!("f{i}x.t"), "struct A {\n    a: Missing = 0\n}\n".into())));
    out.push(files.clone());
    files[1..].iter_mut().for_each(|f| f.1 = "struct A {\n    a 0\n}\n".into());
    out.push(files);
}

/// The good ones.
pub fn good(thorough: bool) -> Vec<Files> {
    let mut list = all(thorough);
    for &n in sizes(thorough) {
        comments(n, &mut list);
    }
    let judged = mc::util::par_map(crate::driver::THREADS, &list, |_, f| mc::lang::judge(&f.iter().cloned().collect(), &f[0].0).ok());
    let mut seen = std::collections::HashSet::new();
    list.into_iter().zip(judged).filter(|(f, ok)| *ok && seen.insert(mc::util::fnv(format!("{f:?}").as_bytes()))).map(|x| x.0).collect()
}

/// All of them, good and bad.
pub fn all(thorough: bool) -> Vec<Files> {
    let mut out = vec![];
    for &n in sizes(thorough) {
        fields(n, &mut out);
        types(n, &mut out);
        if n != 300 {
            imports(n.min(130), &mut out);
        }
        chains(if n > 300 { 120 } else { n.min(70) }, &mut out);
        far(n, &mut out);
        long_names(n, &mut out);
    }
    for n in [127, 128, 255, 256, 257, 512] {
        counts(n, &mut out);
    }
    out
}
