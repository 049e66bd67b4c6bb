//! Running `typical`, compilers and other programs.
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    std::env::var("MC_VERIF").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}
pub fn build_dir() -> PathBuf {
    std::env::var("MC_BUILD").map_or_else(|_| verif().join(".build"), PathBuf::from)
}
/// The `typical` built from the working tree.
pub fn typical() -> PathBuf {
    std::env::var("MC_TYPICAL").map_or_else(|_| build_dir().join("typical/debug/typical"), PathBuf::from)
}
/// A directory for this run only.
pub fn scratch() -> PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        dir.canonicalize().unwrap()
    })
    .clone()
}
/// A directory for this run only, in memory if possible: for many small files.
pub fn scratch_in_memory() -> PathBuf {
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let dir = Path::new("/dev/shm").join(format!("mc-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        match std::fs::create_dir_all(&dir).and_then(|()| std::fs::write(dir.join("probe"), "x")) {
            Ok(()) => dir.canonicalize().unwrap(),
            Err(_) => scratch(),
        }
    })
    .clone()
}
pub fn remove_scratch() {
    if std::env::var("MC_KEEP").is_ok_and(|v| !v.is_empty()) {
        return;
    }
    for dir in [scratch_in_memory(), scratch()] {
        // Other threads may still be at work there.
        for _ in 0..20 {
            if std::fs::remove_dir_all(&dir).is_ok() || !dir.exists() {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
}

pub const THREADS: usize = 8;

#[derive(Clone, Debug)]
pub struct Ran {
    /// The exit status, or `None` if it was killed by a signal.
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub timed_out: bool,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
    pub fn out_text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    /// A description of a crash or a hang, if it was one.
    pub fn crash(&self) -> Option<String> {
        if self.timed_out {
            return Some("it does not terminate".into());
        }
        match self.code {
            None => Some(format!("it was killed by signal {}", self.signal.unwrap_or(0))),
            Some(0 | 1) => {
                let e = self.err_text();
                e.contains("panicked at").then(|| format!("it panicked: {}", mc::util::clip(&e, 400)))
            }
            Some(c) => Some(format!("it exited with status {c}: {}", mc::util::clip(&self.err_text(), 400))),
        }
    }
    pub fn show(&self) -> String {
        format!(
            "status {:?}{}; stdout: {}; stderr: {}",
            self.code,
            if self.timed_out { " (timed out)" } else { "" },
            mc::util::clip(&self.out_text(), 600),
            mc::util::clip(&self.err_text(), 2500)
        )
    }
}

struct Watched {
    pid: i32,
    deadline: Instant,
    killed: bool,
}

static WATCH: Mutex<Vec<Watched>> = Mutex::new(Vec::new());

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn watchdog() {
    static STARTED: OnceLock<()> = OnceLock::new();
    STARTED.get_or_init(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = Instant::now();
            for w in WATCH.lock().unwrap().iter_mut() {
                if !w.killed && now >= w.deadline {
                    w.killed = true;
                    unsafe {
                        kill(w.pid, 9);
                    }
                }
            }
        });
    });
}

static STOPPING: AtomicBool = AtomicBool::new(false);

/// End everything which is running.
pub fn kill_all() {
    STOPPING.store(true, Ordering::SeqCst);
    for w in WATCH.lock().unwrap().iter() {
        unsafe {
            kill(w.pid, 9);
        }
    }
}

/// Run a program to its end, or kill it after the timeout.
pub fn run(cmd: &mut Command, input: Option<&[u8]>, timeout: Duration) -> Ran {
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped());
    run_streams(cmd, input, timeout)
}
/// The same, with standard streams which were set before.
pub fn run_streams(cmd: &mut Command, input: Option<&[u8]>, timeout: Duration) -> Ran {
    watchdog();
    cmd.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut tries = 0;
    let mut child = loop {
        match cmd.spawn() {
            Ok(c) => break c,
            // Out of processes or a busy executable: try again.
            Err(e) if tries < 50 && matches!(e.raw_os_error(), Some(11 | 12 | 26)) => {
                tries += 1;
                std::thread::sleep(Duration::from_millis(100));
            }
            // Another thread is about to exit.
            Err(_) if STOPPING.load(Ordering::SeqCst) => loop {
                std::thread::sleep(Duration::from_secs(1));
            },
            Err(e) => {
                eprintln!("cannot run {cmd:?}: {e}");
                std::process::exit(3);
            }
        }
    };
    let pid = child.id() as i32;
    WATCH.lock().unwrap().push(Watched { pid, deadline: Instant::now() + timeout, killed: false });
    if let Some(input) = input {
        let mut stdin = child.stdin.take().unwrap();
        let input = input.to_vec();
        std::thread::spawn(move || {
            let _ = stdin.write_all(&input);
        });
    }
    let output = child.wait_with_output().unwrap();
    let mut watch = WATCH.lock().unwrap();
    let i = watch.iter().position(|w| w.pid == pid).unwrap();
    let w = watch.swap_remove(i);
    Ran {
        code: output.status.code(),
        signal: output.status.signal(),
        out: output.stdout,
        err: output.stderr,
        timed_out: w.killed,
    }
}

pub fn typical_cmd(cwd: &Path) -> Command {
    let mut c = Command::new(typical());
    c.current_dir(cwd).env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin").env("NO_COLOR", "true").env("LC_ALL", "C.UTF-8");
    c
}

pub fn run_typical(cwd: &Path, args: &[&str]) -> Ran {
    run(typical_cmd(cwd).args(args), None, Duration::from_secs(60))
}

pub fn write_files(dir: &Path, files: &[(String, String)]) {
    for (name, contents) in files {
        let path = dir.join(name);
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, contents).unwrap();
    }
}

pub fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.env("RUSTUP_TOOLCHAIN", "1.85.0").env_remove("RUSTFLAGS").env_remove("RUSTC_WRAPPER");
    c
}

pub const NODE_MODULES: &str = "/opt/veriftools/node/node_modules";
