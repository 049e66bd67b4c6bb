//! The installer (install.sh): C21. Every command which the script runs is a stand-in (this program
//! under another name, see `stub`), which records the call, injects a fault, and otherwise does what
//! the real one would do without a network. Everything runs as a user who owns nothing but a scratch
//! directory.
use crate::driver::{self, Ran, THREADS};
use crate::report::{file, Report};
use mc::util::{clip, par_map};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

const NOBODY: u32 = 65534;

/// Commands which the script may use.
const TOOLS: &[&str] = &[
    "uname", "grep", "egrep", "fgrep", "mktemp", "curl", "chmod", "mv", "sudo", "rm", "cp", "install", "ln", "mkdir", "rmdir", "cat", "head", "tail", "sed", "awk", "cut", "tr", "id", "env",
    "dirname", "basename", "readlink", "realpath", "test", "[", "printf", "echo", "true", "false", "sleep", "expr", "wc", "sort", "uniq", "ls", "touch", "tee", "dd", "sh", "bash", "dash",
    "sha256sum", "which", "stat", "file", "find", "date", "tput", "getconf", "arch", "whoami", "pwd", "sync", "cmp", "diff", "kill", "seq", "nproc", "hostname", "xargs",
];
/// Those in which faults are injected: they have effects.
const EFFECTS: &[&str] = &["mktemp", "curl", "chmod", "mv", "sudo", "rm", "cp", "install", "ln", "mkdir", "rmdir", "touch", "tee", "dd"];

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn getppid() -> i32;
    fn setsid() -> i32;
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
    fn open(path: *const u8, flags: i32) -> i32;
    fn close(fd: i32) -> i32;
}

const SEP: char = '\u{1f}';

/// What a server has at an address: a program of its own for each.
fn program(url: &str, behaviour: &str) -> String {
    let end = match behaviour {
        "fails" => "echo 'cannot execute' >&2\nexit 126",
        _ => "exit 0",
    };
    // Long, so that a part of it is not the whole.
    format!("#!/bin/sh\n# {url}\n{}if [ \"$1\" != --version ]; then exit 2; fi\necho \"typical {url}\"\n{end}\n# The end.\n", "# Some machine code.\n".repeat(40))
}

/// This program under the name of a command.
pub fn stub(name: &str) -> i32 {
    let args: Vec<String> = std::env::args_os().skip(1).map(|a| a.to_string_lossy().into_owned()).collect();
    let var = |n: &str| std::env::var(format!("MC_STUB_{n}")).unwrap_or_default();
    let log = var("LOG");
    let earlier = std::fs::read_to_string(&log).unwrap_or_default();
    let nth = earlier.lines().filter(|l| l.split(SEP).next() == Some(name)).count();
    // The faults: NAME:NTH:KIND.
    let faults = var("FAULTS");
    let fault = faults.split(' ').find_map(|f| {
        let w: Vec<&str> = f.split(':').collect();
        (w.len() == 3 && w[0] == name && w[1] == nth.to_string()).then(|| w[2].to_owned())
    });
    let line = |extra: &str| {
        use std::io::Write;
        let text = std::iter::once(name).chain(args.iter().map(String::as_str)).map(|a| a.replace('\n', "\\n")).collect::<Vec<_>>().join(&SEP.to_string());
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&log) {
            let _ = f.write_all(format!("{text}{extra}\n").as_bytes());
        }
    };
    line("");
    let die = |signal: i32| unsafe {
        kill(getppid(), signal);
        std::thread::sleep(Duration::from_millis(20));
    };
    match fault.as_deref() {
        Some("fail") => {
            eprintln!("{name}: it does not work");
            return 1;
        }
        Some("kill") => {
            die(9);
            return 1;
        }
        Some("term") => {
            die(15);
            return 1;
        }
        _ => {}
    }
    let status = match name {
        "uname" => {
            uname(&args, &var("UNAME").split('|').map(str::to_owned).collect::<Vec<_>>());
            0
        }
        "arch" => {
            println!("{}", var("UNAME").split('|').nth(4).unwrap_or_default());
            0
        }
        "curl" => curl(&args, fault.as_deref() == Some("partial"), &var("SERVER")),
        "sudo" => {
            let at = args.iter().position(|a| !a.starts_with('-')).unwrap_or(args.len());
            if var("SUDO") == "denied" {
                eprintln!("sudo: a password is required");
                1
            } else if at == args.len() {
                1
            } else {
                Command::new(&args[at]).args(&args[at + 1..]).env("MC_STUB_IS_ROOT", "yes").status().map_or(127, |s| s.code().unwrap_or(137))
            }
        }
        _ if var("LOCKED") == "yes" && var("IS_ROOT") != "yes" && ["mv", "cp", "install", "ln", "mkdir", "touch", "tee", "dd"].contains(&name) && args.iter().any(|a| Path::new(a).starts_with(var("PREFIX"))) => {
            eprintln!("{name}: cannot write to '{}': Permission denied", var("PREFIX"));
            1
        }
        _ => {
            let real = ["/usr/bin", "/bin"].iter().map(|d| Path::new(d).join(name)).find(|p| p.exists());
            match real {
                None => {
                    eprintln!("{name}: not found");
                    127
                }
                Some(p) => {
                    let mut c = Command::new(p);
                    c.args(&args);
                    if name == "mktemp" {
                        match c.stderr(std::process::Stdio::inherit()).output() {
                            Ok(o) => {
                                use std::io::Write;
                                line(&format!("{SEP}=>{SEP}{}", String::from_utf8_lossy(&o.stdout).trim()));
                                let _ = std::io::stdout().write_all(&o.stdout);
                                o.status.code().unwrap_or(137)
                            }
                            Err(_) => 127,
                        }
                    } else {
                        c.status().map_or(127, |s| s.code().unwrap_or(137))
                    }
                }
            }
        }
    };
    match fault.as_deref() {
        Some("after") => 1,
        Some("killafter") => {
            die(9);
            1
        }
        Some("partial") if status == 0 => 18,
        _ => status,
    }
}

/// `record`: kernel, host, release, version, machine, processor (may be empty), system.
fn uname(args: &[String], record: &[String]) {
    let at = |i: usize| record.get(i).cloned().unwrap_or_default();
    let flags: String = args.iter().filter_map(|a| if let Some(long) = a.strip_prefix("--") { Some(match long { "all" => "a", "machine" => "m", "operating-system" => "o", "kernel-release" => "r", "nodename" => "n", "processor" => "p", _ => "s" }.to_owned()) } else { a.strip_prefix('-').map(str::to_owned) }).collect();
    let has = |c: char| flags.contains(c) || flags.contains('a');
    let mut out = vec![];
    for (i, c) in "snrvmpo".chars().enumerate() {
        let shown = if c == 'p' { flags.contains('p') || flags.contains('a') } else { has(c) };
        // The kernel of macOS has no name for its system among all the others.
        if (shown || flags.is_empty() && c == 's') && !(at(i).is_empty() || c == 'o' && at(0) == "Darwin" && flags.contains('a')) {
            out.push(at(i));
        }
    }
    println!("{}", out.join(" "));
}

fn curl(args: &[String], partial: bool, server: &str) -> i32 {
    let (mut url, mut output, mut flags) = (String::new(), None, String::new());
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        if a == "-o" || a == "--output" {
            i += 1;
            output = args.get(i).cloned();
        } else if ["--retry", "--connect-timeout", "--max-time", "--proto", "--proto-redir", "--retry-delay", "-H", "--header", "-m", "--tlsv1.2"].contains(&a.as_str()) {
            i += usize::from(a != "--tlsv1.2");
        } else if let Some(o) = a.strip_prefix("--output=") {
            output = Some(o.to_owned());
        } else if let Some(long) = a.strip_prefix("--") {
            flags += match long {
                "location" => "L",
                "fail" => "f",
                _ => "",
            };
        } else if let Some(short) = a.strip_prefix('-') {
            flags += short;
            if short.ends_with('o') {
                i += 1;
                output = args.get(i).cloned();
            }
        } else {
            url = a.clone();
        }
        i += 1;
    }
    let write = |text: &str| -> i32 {
        match &output {
            None => {
                print!("{text}");
                0
            }
            Some(o) => {
                if std::fs::write(o, text).is_err() {
                    eprintln!("curl: (23) cannot write to {o}");
                    return 23;
                }
                0
            }
        }
    };
    if !url.starts_with("https://") {
        // Whoever is in the way may give anything.
        return write("#!/bin/sh\necho intruder\n");
    }
    match server {
        "missing" if flags.contains('f') => {
            eprintln!("curl: (22) The requested URL returned error: 404");
            22
        }
        "missing" => write("Not Found"),
        "down" => {
            eprintln!("curl: (6) Could not resolve host");
            6
        }
        // Releases are elsewhere.
        _ if !flags.contains('L') => write("<html><body>You are being redirected.</body></html>"),
        _ => {
            let text = program(&url, server);
            write(if partial { &text[..text.len() / 2] } else { &text })
        }
    }
}

/// How the destination is before.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Before {
    Absent,
    Old,
    ReadOnly,
    Link,
    NoDirectory,
}

#[derive(Clone, Debug)]
struct Setup {
    /// See `uname`.
    uname: Vec<String>,
    /// The file of the release for it.
    expected: Option<&'static str>,
    before: Before,
    /// Within the scratch directory (the working directory).
    prefix: String,
    relative: bool,
    version: Option<String>,
    shell: &'static [&'static str],
    /// Through standard input, as by curl, or as a file.
    piped: bool,
    server: &'static str,
    tty: bool,
    /// Only root may write to the destination.
    locked: bool,
    sudo: &'static str,
    faults: String,
    env: Vec<(&'static str, &'static str)>,
    cut: Option<usize>,
}

struct Outcome {
    ran: Ran,
    log: Vec<Vec<String>>,
    /// The destination: contents and mode.
    installed: Option<(String, u32)>,
    /// Temporary directories which are still there.
    left: Vec<String>,
    /// Other files which are new, gone or changed.
    others: Vec<String>,
}

const OLD: &str = "#!/bin/sh\necho old\n";

struct World {
    dir: PathBuf,
    script: Vec<u8>,
    next: AtomicUsize,
    terminals: Mutex<()>,
}

fn files(dir: &Path, out: &mut Vec<String>) {
    let mut list: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
    list.sort();
    for p in list {
        let meta = std::fs::symlink_metadata(&p).unwrap();
        out.push(format!("{} {:o} {}", p.display(), meta.permissions().mode(), if meta.is_file() { String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).into_owned() } else { String::new() }));
        if meta.is_dir() {
            files(&p, out);
        }
    }
}

impl World {
    fn new() -> World {
        let dir = driver::scratch().join("install");
        std::fs::create_dir_all(dir.join("bin")).unwrap();
        std::fs::copy(std::env::current_exe().unwrap(), dir.join("mc-stub")).unwrap();
        std::fs::set_permissions(dir.join("mc-stub"), std::fs::Permissions::from_mode(0o755)).unwrap();
        for t in TOOLS {
            let _ = symlink(dir.join("mc-stub"), dir.join("bin").join(t));
        }
        for d in [driver::scratch(), dir.clone(), dir.join("bin")] {
            std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
        let script = std::fs::read(Path::new(&repo).join("install.sh")).expect("install.sh");
        World { dir, script, next: AtomicUsize::new(0), terminals: Mutex::new(()) }
    }

    fn run(&self, s: &Setup) -> Outcome {
        let n = self.next.fetch_add(1, Ordering::SeqCst);
        let dir = self.dir.join(format!("r{n}"));
        let work = dir.join("work");
        std::fs::create_dir_all(&work).unwrap();
        let prefix = if s.relative { work.join(&s.prefix) } else { dir.join(&s.prefix) };
        if s.before != Before::NoDirectory {
            std::fs::create_dir_all(&prefix).unwrap();
        }
        let destination = prefix.join("typical");
        let put = |p: &Path, mode: u32| {
            std::fs::write(p, OLD).unwrap();
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode)).unwrap();
            std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)).unwrap();
        };
        match s.before {
            Before::Absent | Before::NoDirectory => {}
            Before::Old => put(&destination, 0o755),
            Before::ReadOnly => put(&destination, 0o444),
            Before::Link => {
                put(&dir.join("target"), 0o755);
                symlink(dir.join("target"), &destination).unwrap();
            }
        }
        std::fs::write(work.join("neighbour"), "kept").unwrap();
        if prefix.is_dir() {
            std::fs::write(prefix.join("other"), "kept").unwrap();
        }
        let script = &self.script[..s.cut.unwrap_or(self.script.len())];
        std::fs::write(dir.join("install.sh"), script).unwrap();
        std::fs::set_permissions(dir.join("install.sh"), std::fs::Permissions::from_mode(0o755)).unwrap();
        std::fs::write(dir.join("log"), "").unwrap();
        fn own(p: &Path) {
            let _ = std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY));
            if std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir()) {
                for e in std::fs::read_dir(p).unwrap() {
                    own(&e.unwrap().path());
                }
            }
        }
        own(&dir);
        let mut before = vec![];
        files(&dir, &mut before);
        let mut c = Command::new(self.dir.join("bin").join(s.shell[0]));
        c.args(&s.shell[1..]);
        if !s.piped {
            c.arg("../install.sh");
        }
        c.current_dir(&work).env_clear().env("PATH", self.dir.join("bin")).env("LC_ALL", "C.UTF-8").env("HOME", &dir);
        c.env("MC_STUB_LOG", dir.join("log")).env("MC_STUB_UNAME", s.uname.join("|")).env("MC_STUB_FAULTS", &s.faults).env("MC_STUB_SERVER", s.server).env("MC_STUB_SUDO", s.sudo);
        c.env("MC_STUB_PREFIX", if s.relative { PathBuf::from(&s.prefix) } else { prefix.clone() });
        if s.locked {
            c.env("MC_STUB_LOCKED", "yes");
        }
        for (k, v) in &s.env {
            c.env(k, v);
        }
        c.env("PREFIX", if s.relative { s.prefix.clone() } else { prefix.to_string_lossy().into_owned() });
        if let Some(v) = &s.version {
            c.env("VERSION", v);
        }
        let mut name = [0_u8; 64];
        let mut terminal = -1;
        if s.tty {
            let _guard = self.terminals.lock().unwrap();
            unsafe {
                terminal = posix_openpt(2 | 0o400 | 0o2_000_000);
                assert!(terminal >= 0 && grantpt(terminal) == 0 && unlockpt(terminal) == 0 && ptsname_r(terminal, name.as_mut_ptr(), name.len()) == 0, "no terminals");
            }
            let path = std::ffi::CStr::from_bytes_until_nul(&name).unwrap().to_str().unwrap().to_owned();
            let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0o666));
        }
        let tty = s.tty;
        c.uid(NOBODY).gid(NOBODY);
        unsafe {
            c.pre_exec(move || {
                setsid();
                if tty {
                    let fd = open(name.as_ptr(), 2);
                    if fd < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    close(fd);
                }
                Ok(())
            });
        }
        let ran = driver::run(&mut c, s.piped.then_some(script), Duration::from_secs(60));
        if terminal >= 0 {
            unsafe {
                close(terminal);
            }
        }
        let log: Vec<Vec<String>> = std::fs::read_to_string(dir.join("log")).unwrap_or_default().lines().map(|l| l.split(SEP).map(str::to_owned).collect()).skip(1).collect();
        // (The first line is the shell itself.)
        let installed = std::fs::metadata(&destination).ok().map(|m| (String::from_utf8_lossy(&std::fs::read(&destination).unwrap_or_default()).into_owned(), m.permissions().mode() & 0o7777));
        let mut left = vec![];
        for l in &log {
            if l.len() > 2 && l[l.len() - 2] == "=>" && !l[l.len() - 1].is_empty() {
                let p = PathBuf::from(&l[l.len() - 1]);
                if p.exists() {
                    left.push(p.display().to_string());
                    // Only what is certainly of this run.
                    if p.starts_with("/tmp/") && p.components().count() == 3 {
                        let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
                    }
                }
            }
        }
        let mut after = vec![];
        files(&dir, &mut after);
        let place = prefix.canonicalize().map_or_else(|_| destination.clone(), |p| p.join("typical"));
        let of = |l: &String| l.starts_with(&format!("{} ", place.display())) || l.starts_with(&format!("{} ", dir.join("log").display()));
        let others = before.iter().filter(|l| !after.contains(l)).chain(after.iter().filter(|l| !before.contains(l))).filter(|l| !of(l)).cloned().collect();
        let _ = std::fs::remove_dir_all(&dir);
        Outcome { ran, log, installed, left, others }
    }
}

fn record(kernel: &str, host: &str, release: &str, version: &str, machine: &str, processor: &str, system: &str) -> Vec<String> {
    [kernel, host, release, version, machine, processor, system].iter().map(|s| (*s).to_owned()).collect()
}

/// Platforms: as they call themselves, and the release for them.
fn platforms() -> Vec<(Vec<String>, Option<&'static str>)> {
    let mut out = vec![];
    let mac = |arch: &str| format!("Darwin Kernel Version 22.6.0: Wed Jul 5 22:21:53 PDT 2023; root:xnu-8796.141.3~6/RELEASE_{arch}");
    for host in ["host", "build-01.example.com", "GNU", "linux-box", "Darwin-mac", "darwin", "my-arm", "x86", "Ubuntu.GNU", "localhost"] {
        for (machine, of_gnu, of_musl) in [
            ("x86_64", Some("typical-x86_64-unknown-linux-gnu"), Some("typical-x86_64-unknown-linux-musl")),
            ("aarch64", Some("typical-aarch64-unknown-linux-gnu"), Some("typical-aarch64-unknown-linux-musl")),
            ("i686", None, None),
            ("armv7l", None, None),
            ("riscv64", None, None),
            ("ppc64le", None, None),
        ] {
            for (release, version) in [("5.10.0-23-cloud", "#1 SMP Debian 5.10.179-1 (2023-05-12)"), ("6.1.0", "#58~20.04.1-Ubuntu SMP PREEMPT_DYNAMIC Mon Aug 14"), ("5.15.90.1-microsoft-standard-WSL2", "#1 SMP Fri Jan 27 02:56:13 UTC 2023"), (&format!("5.14.0-284.el9.{machine}") as &str, "#1 SMP")] {
                out.push((record("Linux", host, release, version, machine, "", "GNU/Linux"), of_gnu));
                out.push((record("Linux", host, release, version, machine, &format!("{machine} {machine}"), "GNU/Linux"), of_gnu));
                out.push((record("Linux", host, release, version, machine, "", "Linux"), of_musl));
            }
        }
        for arch in ["X86_64", "ARM64_T6000"] {
            // (An Intel shell on an ARM processor has the former's programs.)
            out.push((record("Darwin", host, "22.6.0", &mac(arch), "x86_64", "", "Darwin"), Some("typical-x86_64-apple-darwin")));
        }
        out.push((record("Darwin", host, "22.6.0", &mac("ARM64_T6000"), "arm64", "", "Darwin"), Some("typical-aarch64-apple-darwin")));
        out.push((record("Darwin", host, "10.8.0", "Darwin Kernel Version 10.8.0: root:xnu-1504/RELEASE_I386", "i386", "", "Darwin"), None));
        for (kernel, machine, system) in [("FreeBSD", "amd64", "FreeBSD"), ("OpenBSD", "arm64", "OpenBSD"), ("SunOS", "i86pc", "Solaris"), ("MINGW64_NT-10.0-19045", "x86_64", "Msys"), ("CYGWIN_NT-10.0", "x86_64", "Cygwin"), ("AIX", "00F84C0C4C00", "AIX")] {
            if host == "linux-box" || host.to_lowercase().contains("darwin") {
                continue;
            }
            out.push((record(kernel, host, "1.0", "#1", machine, "", system), None));
        }
    }
    out
}

/// The machines for which there is a release.
fn supported() -> Vec<(Vec<String>, &'static str)> {
    let mut seen = std::collections::HashSet::new();
    platforms().into_iter().filter_map(|(u, e)| e.map(|e| (u, e))).filter(|(_, e)| seen.insert(*e)).collect()
}

fn usual(uname: Vec<String>, expected: Option<&'static str>) -> Setup {
    Setup {
        uname,
        expected,
        before: Before::Absent,
        prefix: "bin".into(),
        relative: false,
        version: None,
        shell: &["sh"],
        piped: true,
        server: "",
        tty: false,
        locked: false,
        sudo: "allowed",
        faults: String::new(),
        env: vec![],
        cut: None,
    }
}

/// The address of what was downloaded, if that is the whole program.
fn whole(contents: &str, server: &str) -> Option<String> {
    let url = contents.lines().nth(1)?.strip_prefix("# ")?;
    (contents == program(url, server)).then(|| url.to_owned())
}

/// Judge a run of the complete script.
fn judge(report: &Report, s: &Setup, o: &Outcome) {
    report.add("runs", 1);
    let wrong = |what: String| {
        let log: Vec<String> = o.log.iter().map(|l| l.join(" ")).collect();
        report.violation(&format!("install.sh {what}; {s:?}; commands: {}; {}; the destination: {}", clip(&log.join(" ; "), 1200), clip(&o.ran.show(), 500), clip(&format!("{:?}", o.installed), 150)), &[file("SETUP", format!("{s:#?}")), file("LOG", log.join("\n"))]);
    };
    let killed = s.faults.contains("kill") || s.faults.contains("term");
    let ok = o.ran.ok();
    if o.ran.timed_out {
        return wrong("does not terminate".into());
    }
    let before = match s.before {
        Before::Absent | Before::NoDirectory => None,
        Before::Old | Before::Link => Some((OLD.to_owned(), 0o755)),
        Before::ReadOnly => Some((OLD.to_owned(), 0o444)),
    };
    let url = o.installed.as_ref().and_then(|(c, _)| whole(c, s.server));
    let right = match (&url, s.expected) {
        (Some(url), Some(f)) => match url.strip_prefix("https://github.com/stepchowfun/typical/releases/download/v").and_then(|r| r.split_once('/')) {
            Some((version, got)) => {
                got == f
                    && match s.version.as_deref().filter(|v| !v.is_empty()) {
                        Some(v) => v == version,
                        None => version.split('.').count() == 3 && version.chars().all(|c| c.is_ascii_digit() || c == '.'),
                    }
            }
            None => false,
        },
        _ => false,
    };
    let executable = o.installed.as_ref().is_some_and(|(_, m)| m & 0o111 == 0o111);
    // What is there is the old one or the new one.
    if o.installed != before && !(right && executable) {
        wrong("installed something else than the release for the platform".into());
    }
    if ok {
        report.add("installed", 1);
        if !right || !executable {
            wrong("succeeded, but the release for the platform is not installed".into());
        } else if !o.ran.out_text().contains(&format!("typical {}", url.clone().unwrap_or_default())) {
            wrong("succeeded, but the installed program was not tried".into());
        }
        if s.server == "fails" {
            wrong("succeeded, although the installed program does not work".into());
        }
    } else {
        report.add("refused", 1);
        if o.ran.err.is_empty() && !killed {
            wrong("failed without a message".into());
        }
        let late = s.faults.contains("rm") || s.server == "fails" || s.faults.contains("after");
        if o.installed != before && !killed && !late {
            wrong("failed, but replaced the program".into());
        }
    }
    let should = s.expected.is_some() && s.faults.is_empty() && ["", "elsewhere"].contains(&s.server) && s.before != Before::NoDirectory && (!s.locked || s.tty && s.sudo == "allowed");
    if should && !ok {
        wrong("failed, although nothing stands in the way".into());
    }
    if s.expected.is_none() && (ok || o.log.iter().any(|l| l[0] == "curl")) {
        wrong("does not refuse a platform for which there is no release".into());
    }
    if !killed && !s.faults.contains("rm:") && !o.left.is_empty() {
        wrong(format!("left temporary files: {:?}", o.left));
    }
    if !o.others.is_empty() {
        wrong(format!("changed other files: {}", clip(&format!("{:?}", o.others), 300)));
    }
}

pub fn c21(report: &Report) -> i32 {
    let w = World::new();
    let all = platforms();
    report.add("platforms", all.len() as u64);
    let mut setups: Vec<Setup> = all.iter().map(|(u, e)| usual(u.clone(), *e)).collect();
    // Ways to run it, states and names of the destination, versions, and environments.
    let shells: &[(&[&str], bool)] = &[(&["sh"], true), (&["sh"], false), (&["bash"], true), (&["bash", "--posix"], false), (&["sh", "-e"], true), (&["sh", "-u"], false), (&["bash", "-e", "-o", "pipefail"], true)];
    let befores = [Before::Absent, Before::Old, Before::ReadOnly, Before::Link, Before::NoDirectory];
    let prefixes: &[(&str, bool)] = &[("bin", false), ("a b/it's $HOME *", false), ("bin/", false), (".", true), ("here", true), ("./x/../y y", true), ("é\"\\", false), ("a;b&c|d", true), ("[x]?", false), ("new\nline", false)];
    let versions: &[Option<&str>] = &[None, Some(""), Some("1.2.3"), Some("0.0.1"), Some("10.20.30")];
    let envs: Vec<Vec<(&'static str, &'static str)>> = vec![
        vec![],
        vec![("FILENAME", "typical-x86_64-apple-darwin"), ("DESTINATION", "/nonexistent/typical"), ("RELEASE", "v9.9.9"), ("SOURCE", "/nonexistent/x"), ("TEMPDIR", "/nonexistent/y")],
        vec![("TMPDIR", "/nonexistent")],
        vec![("CDPATH", "/tmp"), ("IFS", "/"), ("POSIXLY_CORRECT", "1")],
        vec![("GREP_OPTIONS", "-v"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
    ];
    let machines = supported();
    for (m, (u, e)) in machines.iter().enumerate() {
        for (a, (shell, piped)) in shells.iter().enumerate() {
            for (b, before) in befores.iter().enumerate() {
                for (c, (prefix, relative)) in prefixes.iter().enumerate() {
                    for (d, version) in versions.iter().enumerate() {
                        for (k, env) in envs.iter().enumerate() {
                            // Everything differs from the usual in up to two ways (thorough: three).
                            let ways = [a, b, c, d, k].iter().filter(|x| **x > 0).count();
                            if ways > if report.thorough { 3 } else { 2 } || (!report.thorough && m > 0 && ways == 2 && (a + b + c + d + k + m) % 6 != 0) {
                                continue;
                            }
                            let mut s = usual(u.clone(), Some(e));
                            (s.shell, s.piped, s.before, s.prefix, s.relative, s.version, s.env) = (shell, *piped, *before, (*prefix).to_owned(), *relative, version.map(str::to_owned), env.clone());
                            setups.push(s);
                        }
                    }
                }
            }
        }
    }
    // What may go wrong elsewhere.
    for (u, e) in &machines {
        for server in ["missing", "down", "fails"] {
            for before in befores {
                for version in [None, Some("1.2.3".to_owned())] {
                    let mut s = usual(u.clone(), Some(e));
                    (s.server, s.before, s.version) = (server, before, version);
                    setups.push(s);
                }
            }
        }
        for before in befores {
            for (tty, sudo) in [(false, "allowed"), (true, "allowed"), (true, "denied")] {
                for (prefix, relative) in prefixes {
                    let mut s = usual(u.clone(), Some(e));
                    (s.locked, s.tty, s.sudo, s.before, s.prefix, s.relative) = (true, tty, sudo, before, (*prefix).to_owned(), *relative);
                    setups.push(s);
                }
            }
        }
    }
    report.add("setups", setups.len() as u64);
    par_map(THREADS, &setups, |_, s| judge(report, s, &w.run(s)));
    report.sample(format!("{:?}", setups[setups.len() / 2]));
    // Every fault at every command with effects, alone and in pairs.
    let mut bases = vec![];
    for (u, e) in &machines {
        for before in [Before::Absent, Before::Old, Before::Link] {
            for (tty, locked, sudo) in [(false, false, "allowed"), (true, true, "allowed"), (true, true, "denied"), (false, true, "allowed")] {
                let mut s = usual(u.clone(), Some(e));
                (s.before, s.tty, s.locked, s.sudo) = (before, tty, locked, sudo);
                bases.push(s);
            }
        }
    }
    let kinds = ["fail", "after", "partial", "kill", "killafter", "term"];
    let lists = par_map(THREADS, &bases, |n, s| {
        let calls = |log: &[Vec<String>]| -> Vec<(String, usize)> {
            let mut out: Vec<(String, usize)> = vec![];
            for l in log.iter().filter(|l| EFFECTS.contains(&l[0].as_str()) && !l.contains(&"=>".to_owned())) {
                let nth = if l[0] == "mktemp" { out.iter().filter(|o| o.0 == l[0]).count() * 2 } else { out.iter().filter(|o| o.0 == l[0]).count() };
                out.push((l[0].clone(), nth));
            }
            out
        };
        let mut out = vec![];
        for (name, nth) in calls(&w.run(s).log) {
            for kind in kinds {
                if kind == "partial" && name != "curl" {
                    continue;
                }
                let mut s = s.clone();
                s.faults = format!("{name}:{nth}:{kind}");
                // What it does then can fail as well.
                if ["fail", "after", "partial"].contains(&kind) && (report.thorough || n % 6 < 2) {
                    for (name2, nth2) in calls(&w.run(&s).log) {
                        if (&name2, nth2) != (&name, nth) {
                            for kind2 in ["fail", "after", "kill"] {
                                let mut t = s.clone();
                                t.faults = format!("{} {name2}:{nth2}:{kind2}", s.faults);
                                out.push(t);
                            }
                        }
                    }
                }
                out.push(s);
            }
        }
        out
    });
    let faults: Vec<Setup> = lists.into_iter().flatten().collect();
    report.add("faults", faults.len() as u64);
    par_map(THREADS, &faults, |_, s| judge(report, s, &w.run(s)));
    // The download of the script itself ends early: it runs as a whole or not at all.
    let (u, e) = &machines[0];
    let mut complete = usual(u.clone(), Some(e));
    complete.before = Before::Old;
    // (The commands of a pipe come in any order.)
    let effects = |o: &Outcome| o.log.iter().map(|l| l[0].clone()).filter(|n| EFFECTS.contains(&n.as_str())).collect::<Vec<_>>();
    let full = effects(&w.run(&complete));
    let mut cuts: Vec<(usize, &[&str])> = (0..w.script.len()).map(|c| (c, &["sh"] as &[&str])).collect();
    cuts.extend((0..w.script.len()).filter(|c| report.thorough || c % 3 == 0 || w.script[c.saturating_sub(1)] == b'\n').map(|c| (c, &["bash"] as &[&str])));
    report.add("truncations", cuts.len() as u64);
    par_map(THREADS, &cuts, |_, (cut, shell)| {
        let mut s = complete.clone();
        (s.cut, s.shell) = (Some(*cut), shell);
        let o = w.run(&s);
        report.add("runs", 1);
        let commands: Vec<String> = o.log.iter().map(|l| l[0].clone()).collect();
        let same = o.installed == Some((OLD.to_owned(), 0o755)) && o.others.is_empty();
        if !(commands.is_empty() && same || effects(&o) == full && o.ran.ok()) {
            report.violation(&format!("the first {cut} bytes of install.sh did something: {commands:?}; {}; the destination: {}", o.ran.show(), clip(&format!("{:?}", o.installed), 200)), &[file("install.sh", &w.script[..*cut])]);
        }
    });
    // Without a PREFIX it is meant for /usr/local/bin (where this user may not write).
    for (u, e) in &machines {
        for empty in [false, true] {
            let mut s = usual(u.clone(), Some(e));
            s.env = vec![("MC_NONE", "")];
            let o = default_place(&w, &s, empty);
            report.add("runs", 1);
            let named = o.log.iter().any(|l| EFFECTS.contains(&l[0].as_str()) && l.iter().any(|a| a.trim_end_matches('/') == "/usr/local/bin/typical" || a.trim_end_matches('/') == "/usr/local/bin"));
            if o.ran.ok() || !named || o.ran.err.is_empty() || !o.left.is_empty() || !o.others.is_empty() {
                report.violation(&format!("install.sh without PREFIX, as a user who may not write to /usr/local/bin: {}; left {:?}, changed {:?}; {:?}", o.ran.show(), o.left, o.others, o.log), &[]);
            }
        }
    }
    // Hosts with the name of another architecture.
    for (kernel, host, machine, system, expected) in [
        ("Linux", "x86_64-builder", "aarch64", "GNU/Linux", Some("typical-aarch64-unknown-linux-gnu")),
        ("Linux", "x86_64-builder", "i686", "GNU/Linux", None),
        ("Linux", "aarch64-builder", "armv7l", "Linux", None),
        ("Darwin", "x86_64-mac", "arm64", "Darwin", Some("typical-aarch64-apple-darwin")),
        ("Darwin", "arm64-mac", "i386", "Darwin", None),
        ("Linux", "x86_64-builder", "x86_64", "GNU/Linux", Some("typical-x86_64-unknown-linux-gnu")),
    ] {
        let s = usual(record(kernel, host, "5.10.0", "#1 SMP", machine, "", system), expected);
        let o = w.run(&s);
        let got = o.installed.as_ref().and_then(|(c, _)| whole(c, "")).and_then(|u| u.rsplit('/').next().map(str::to_owned));
        report.add("designated_hosts", 1);
        if got.as_deref() != expected && got.as_ref().is_some_and(|g| g.split('-').nth(1) == Some(&host.replace("arm64", "aarch64").split('-').next().unwrap().to_owned())) {
            report.finding("D32", 1, &format!("{kernel} {host} {machine}: {got:?}"), &[]);
        } else {
            judge(report, &s, &o);
        }
    }
    report.assume("the commands which the script runs are stand-ins: curl has the releases of a simulated server, uname tells the simulated platform, the others are the real ones");
    report.finish()
}

/// Without `PREFIX`, or with an empty one.
fn default_place(w: &World, s: &Setup, empty: bool) -> Outcome {
    let mut s = s.clone();
    s.shell = if empty { &["env", "PREFIX=", "sh"] } else { &["env", "-u", "PREFIX", "sh"] };
    let mut o = w.run(&s);
    // (Two more lines: of `env`, and of the shell.)
    o.log.retain(|l| l[0] != "sh");
    o
}
