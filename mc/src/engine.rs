//! The part which is linked with the generated Rust code and explores its behaviors.
use crate::codec::{self, UnitArrays, Val};
use crate::model::Universe;
use crate::util::hex_short;
use crate::values::Values;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

// Conversions used by the generated glue.
pub fn g_f64(v: &Val) -> f64 {
    match v {
        Val::F64(b) => f64::from_bits(*b),
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_u64(v: &Val) -> u64 {
    match v {
        Val::U64(n) => *n,
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_s64(v: &Val) -> i64 {
    match v {
        Val::S64(n) => *n,
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_bool(v: &Val) -> bool {
    match v {
        Val::Bool(b) => *b,
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_bytes(v: &Val) -> Vec<u8> {
    match v {
        Val::Bytes(b) => b.clone(),
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_str(v: &Val) -> String {
    match v {
        Val::Str(s) => s.clone(),
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_units(v: &Val) -> usize {
    match v {
        Val::Units(n) => *n as usize,
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_arr(v: &Val) -> &[Val] {
    match v {
        Val::Arr(a) => a,
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_st(v: &Val) -> &[Option<Val>] {
    match v {
        Val::Struct(f) => f,
        _ => panic!("glue: {v:?}"),
    }
}
pub fn g_ch(v: &Val) -> (usize, &Val, Option<&Val>) {
    match v {
        Val::Choice(p, v, fb) => (*p, v, fb.as_deref()),
        _ => panic!("glue: {v:?}"),
    }
}
pub fn ch(pos: usize, v: Val, fb: Option<Val>) -> Val {
    Val::Choice(pos, Box::new(v), fb.map(Box::new))
}

/// What the glue provides for a declaration.
pub struct Entry {
    /// Serialize a value; also returns the size reported before.
    pub enc: fn(&Val, &mut dyn Write) -> (usize, io::Result<()>),
    pub dec: fn(&mut dyn BufRead) -> io::Result<Val>,
    /// The generated conversion from the writer's to the reader's type.
    pub conv: fn(&Val) -> Val,
}

// An allocator which measures the memory in use and the largest single request.
pub struct Meter;
static IN_USE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static ALLOCATED: AtomicUsize = AtomicUsize::new(0);
/// The bytes of all requests so far.
pub fn allocated() -> u64 {
    ALLOCATED.load(Ordering::Relaxed) as u64
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        check_huge(layout.size());
        ALLOCATED.fetch_add(layout.size(), Ordering::Relaxed);
        let now = IN_USE.fetch_add(layout.size(), Ordering::Relaxed).wrapping_add(layout.size());
        PEAK.fetch_max(now, Ordering::Relaxed);
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        check_huge(layout.size());
        ALLOCATED.fetch_add(layout.size(), Ordering::Relaxed);
        let now = IN_USE.fetch_add(layout.size(), Ordering::Relaxed).wrapping_add(layout.size());
        PEAK.fetch_max(now, Ordering::Relaxed);
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        IN_USE.fetch_sub(layout.size(), Ordering::Relaxed);
        System.dealloc(ptr, layout);
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        check_huge(new_size);
        ALLOCATED.fetch_add(new_size, Ordering::Relaxed);
        let now = IN_USE.fetch_add(new_size, Ordering::Relaxed).wrapping_add(new_size);
        PEAK.fetch_max(now, Ordering::Relaxed);
        IN_USE.fetch_sub(layout.size(), Ordering::Relaxed);
        System.realloc(ptr, layout, new_size)
    }
}
/// Set in forked processes, which end when asked for an enormous amount of memory.
pub static FORKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const HUGE: usize = 1 << 30;
pub const HUGE_STATUS: i32 = 77;
extern "C" {
    fn _exit(status: i32) -> !;
}
fn check_huge(size: usize) {
    if size > HUGE && FORKED.load(Ordering::Relaxed) {
        unsafe { _exit(HUGE_STATUS) }
    }
}
pub static LAST_PEAK: AtomicUsize = AtomicUsize::new(0);
/// Measure the peak of memory used by a function.
pub fn metered<R>(f: impl FnOnce() -> R) -> R {
    let before = IN_USE.load(Ordering::Relaxed);
    PEAK.store(before, Ordering::Relaxed);
    let r = f();
    LAST_PEAK.store(PEAK.load(Ordering::Relaxed).saturating_sub(before), Ordering::Relaxed);
    r
}

/// A reader which hands out the bytes in chosen chunks, can fail at a chosen call, and notices
/// when the end of the stream is polled forever.
#[derive(Default)]
pub struct Polls {
    pub fill: usize,
    pub read: usize,
}

pub struct Script<'a> {
    pub at_end: Polls,
    pub bytes: &'a [u8],
    pub pos: usize,
    /// Chunk lengths, used in turn; the last one repeats.
    pub chunks: &'a [usize],
    chunk: usize,
    left: usize,
    /// Fail at this call of `fill_buf` or `read` (from 0).
    pub fail_at: Option<(usize, ErrorKind)>,
    pub calls: usize,
    polls_at_end: usize,
}

pub const LIVELOCK: &str = "livelock: the reader polls the end of the stream forever";

impl<'a> Script<'a> {
    pub fn new(bytes: &'a [u8], chunks: &'a [usize]) -> Script<'a> {
        Script { bytes, pos: 0, chunks, chunk: 0, left: chunks[0], fail_at: None, calls: 0, polls_at_end: 0, at_end: Polls::default() }
    }
    fn available(&mut self) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if let Some((at, kind)) = self.fail_at {
            // The end of the stream stays where it is.
            if at == call || at < call && kind == ErrorKind::UnexpectedEof {
                return Err(io::Error::new(kind, "injected failure"));
            }
        }
        let remaining = self.bytes.len() - self.pos;
        if remaining == 0 {
            self.polls_at_end += 1;
            if self.polls_at_end > 2000 {
                panic!("{LIVELOCK}");
            }
            return Ok(0);
        }
        if self.left == 0 {
            if self.chunk + 1 < self.chunks.len() {
                self.chunk += 1;
            }
            self.left = self.chunks[self.chunk];
        }
        Ok(self.left.min(remaining))
    }
    fn advance(&mut self, n: usize) {
        self.pos += n;
        self.left -= n;
    }
}

impl Read for Script<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos == self.bytes.len() {
            self.at_end.read += 1;
        }
        let n = self.available()?.min(buf.len());
        buf[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
        self.advance(n);
        Ok(n)
    }
}
impl BufRead for Script<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos == self.bytes.len() {
            self.at_end.fill += 1;
        }
        let n = self.available()?;
        Ok(&self.bytes[self.pos..self.pos + n])
    }
    fn consume(&mut self, n: usize) {
        if n > 0 {
            self.advance(n);
        }
    }
}

/// A writer which accepts chosen numbers of bytes and can fail at a chosen call.
pub struct Sink {
    pub out: Vec<u8>,
    pub accept: usize,
    pub fail_at: Option<(usize, Fault)>,
    pub calls: usize,
    pub failed: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Error(ErrorKind),
    Zero,
}
impl Sink {
    pub fn new(accept: usize) -> Sink {
        Sink { out: vec![], accept, fail_at: None, calls: 0, failed: false }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if let Some((at, fault)) = self.fail_at {
            if at == call && !buf.is_empty() {
                self.failed = true;
                match fault {
                    Fault::Error(kind) => return Err(io::Error::new(kind, "injected failure")),
                    Fault::Zero => return Ok(0),
                }
            }
        }
        let n = buf.len().min(self.accept);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The outcome of calling generated code.
pub enum Got {
    Val(Val),
    Err(io::Error),
    Panic(String),
}

impl Got {
    pub fn show(&self) -> String {
        match self {
            Got::Val(v) => format!("value {}", crate::util::clip(&v.show(), 300)),
            Got::Err(e) => format!("error {e:?}"),
            Got::Panic(p) => format!("PANIC {p}"),
        }
    }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| (*s).to_owned()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into())
}

pub fn decode(e: &Entry, reader: &mut dyn BufRead) -> Got {
    match catch_unwind(AssertUnwindSafe(|| (e.dec)(reader))) {
        Ok(Ok(v)) => Got::Val(v),
        Ok(Err(err)) => Got::Err(err),
        Err(p) => Got::Panic(panic_text(&*p)),
    }
}

pub enum Enc {
    Bytes(usize, Vec<u8>),
    Err(io::Error),
    Panic(String),
}

pub fn encode(e: &Entry, v: &Val) -> Enc {
    let mut out = vec![];
    match catch_unwind(AssertUnwindSafe(|| (e.enc)(v, &mut out))) {
        Ok((size, Ok(()))) => Enc::Bytes(size, out),
        Ok((_, Err(err))) => Enc::Err(err),
        Err(p) => Enc::Panic(panic_text(&*p)),
    }
}

/// What an exploration found, printed for the parent.
pub struct Out {
    pub counts: BTreeMap<&'static str, u64>,
    pub violations: usize,
    per_decl: BTreeMap<usize, usize>,
    pub samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
    distinct: HashSet<u64>,
    quiet: bool,
}

impl Out {
    /// For judging something in a forked process: prints nothing.
    pub fn probe() -> Out {
        let mut o = Out::new();
        o.quiet = true;
        o
    }
    pub fn has_known(&self) -> bool {
        !self.known.is_empty()
    }
    fn new() -> Out {
        Out { counts: BTreeMap::new(), violations: 0, per_decl: BTreeMap::new(), samples: vec![], known: BTreeMap::new(), distinct: HashSet::new(), quiet: false }
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_default() += n;
    }
    pub fn outcome(&mut self, bytes: &[u8]) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(crate::util::fnv(bytes));
        }
    }
    pub fn violation(&mut self, decl: usize, text: &str) {
        self.violations += 1;
        let n = self.per_decl.entry(decl).or_default();
        *n += 1;
        if !self.quiet && *n <= 3 && self.violations <= 200 {
            println!("VIOL\t{decl}\t{}", text.replace(['\n', '\t'], " "));
        }
        // Enough is enough: code which is badly broken can make the rest take very long.
        if !self.quiet && self.violations == 200 {
            self.print();
            unsafe { _exit(0) }
        }
    }
    pub fn known(&mut self, id: &str, example: impl FnOnce() -> String) {
        let e = self.known.entry(id.to_owned()).or_insert_with(|| (0, example()));
        e.0 += 1;
    }
    pub fn sample(&mut self, text: String) {
        if self.samples.len() < 3 {
            self.samples.push(text);
        }
    }
    pub fn print(&self) {
        for (k, v) in &self.counts {
            println!("STAT\t{k}\t{v}");
        }
        println!("STAT\tdistinct\t{}", self.distinct.len());
        for (id, (n, ex)) in &self.known {
            println!("KNOWN\t{id}\t{n}\t{}", ex.replace(['\n', '\t'], " "));
        }
        for s in &self.samples {
            println!("SAMPLE\t{}", s.replace(['\n', '\t'], " "));
        }
        println!("DONE");
    }
}

static WATCHED: std::sync::Mutex<(u64, usize, Vec<u8>)> = std::sync::Mutex::new((0, 0, Vec::new()));

/// Says what is going to be decoded, so that decoding which never ends is noticed.
pub fn watch(d: usize, m: &[u8]) {
    let mut w = WATCHED.lock().unwrap();
    w.0 += 1;
    w.1 = d;
    w.2.clear();
    w.2.extend_from_slice(m);
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let w = WATCHED.lock().unwrap();
            same = if w.0 == last { same + 1 } else { 0 };
            last = w.0;
            // Nothing takes nearly as long, also on a busy machine. The time in between messages
            // is bounded by what is done in forked processes.
            if same == 60 && last > 0 {
                println!("VIOL\t{}\tdecoding {} does not end", w.1, hex_short(&w.2));
                unsafe { _exit(0) }
            }
        }
    });
}

/// The entry point of a child process: `child MODE UNIVERSE-FILE [THOROUGH]`.
pub fn child_main(table: &'static [Entry]) {
    child_main_counting(table, || 0);
}

/// With a function which says how many blocks of code were executed so far.
pub fn child_main_counting(table: &'static [Entry], blocks: fn() -> u64) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let u = Universe::from_text(&std::fs::read_to_string(&args[2]).unwrap());
    let thorough = args.get(3).is_some_and(|a| a == "thorough");
    let only: Option<usize> = args.get(4).map(|a| a.parse().unwrap());
    let mode = args[1].clone();
    watchdog();
    // A big stack, so that deep (but well-formed) values are no issue of the harness.
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut out = Out::new();
            for d in 0..u.decls.len() {
                if only.is_some_and(|o| o != d) {
                    continue;
                }
                // Says what was going on if this process dies.
                println!("AT\t{d}");
                match mode.as_str() {
                    "roundtrip" => roundtrip(&u, table, d, thorough, &mut out),
                    "bytes" => bytes(&u, table, d, thorough, &mut out),
                    "count" => count_values(&u, d, thorough),
                    "readers" => crate::explore::readers(&u, table, d, thorough, &mut out),
                    "hostile" => crate::explore::hostile(&u, table, d, thorough, &mut out),
                    "evolve" => crate::explore::evolve(&u, table, d, thorough, &mut out),
                    "history" => crate::history::history(&u, table, d, thorough, &mut out),
                    "cost" => crate::cost::cost(&u, table, d, thorough, blocks, &mut out),
                    "stream" => crate::explore::stream(&u, table, d, thorough, &mut out),
                    _ => panic!("unknown mode"),
                }
            }
            out.print();
        })
        .unwrap()
        .join()
        .unwrap();
}

fn level(_thorough: bool) -> usize {
    2
}

/// Prints how many values each type has, for tuning.
fn count_values(u: &Universe, d: usize, thorough: bool) {
    let t = std::time::Instant::now();
    let n = values(u, d, thorough).len();
    println!("N\t{n}\t{:?}\t{}", t.elapsed(), u.decl_source(d).chars().take(300).collect::<String>().replace('\n', " "));
}

fn values(u: &Universe, d: usize, thorough: bool) -> Vec<Val> {
    let mut vs = Values::new(u);
    if thorough {
        vs.product_limit = 40_000;
    }
    let mut out = vs.messages(d, level(thorough), if thorough { 3 } else { 2 });
    if u.decls[d].name.starts_with("Huge") {
        out.extend(vs.huge_messages(d));
    }
    out
}

/// C01.
fn roundtrip(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    for v in values(u, d, thorough) {
        out.add("values", 1);
        let expected = codec::to_in_message(u, d, &v);
        let bytes = match encode(&t[d], &v) {
            Enc::Bytes(_, b) => b,
            Enc::Err(e) => {
                out.violation(d, &format!("serialize fails with {e:?} for {}", v.show()));
                continue;
            }
            Enc::Panic(p) => {
                out.violation(d, &format!("serialize panics ({p}) for {}", v.show()));
                continue;
            }
        };
        out.outcome(&bytes);
        let mut s: &[u8] = &bytes;
        watch(d, &bytes);
        match decode(&t[d], &mut s) {
            Got::Val(got) if got == expected => {}
            got => out.violation(
                d,
                &format!("{} is written as {} which is read as {} instead of {}", v.show(), hex_short(&bytes), got.show(), expected.show()),
            ),
        }
        out.add("decodes", 1);
        match catch_unwind(AssertUnwindSafe(|| (t[d].conv)(&v))) {
            Ok(got) if got == expected => {}
            Ok(got) => out.violation(d, &format!("{} is converted to {} instead of {}", v.show(), got.show(), expected.show())),
            Err(p) => out.violation(d, &format!("the conversion panics ({}) for {}", panic_text(&*p), v.show())),
        }
        out.add("conversions", 1);
        if d % 7 == 6 && out.counts["values"] % 97 == 1 {
            out.sample(format!("{} {} -> {} -> {}", u.decls[d].name, v.show(), hex_short(&bytes), expected.show()));
        }
    }
}

/// How many fields are written for a value, at any depth.
fn field_steps(v: &Val) -> u64 {
    match v {
        Val::Arr(a) => a.iter().map(field_steps).sum(),
        Val::Struct(f) => f.iter().flatten().map(|v| 1 + field_steps(v)).sum(),
        Val::Choice(_, v, fb) => 1 + field_steps(v) + fb.as_ref().map_or(0, |f| field_steps(f)),
        _ => 0,
    }
}

/// C02.
fn bytes(u: &Universe, t: &[Entry], d: usize, thorough: bool, out: &mut Out) {
    let units = u.decls[d].fields.iter().any(|f| codec::has_unit_array(u, &f.ty));
    for v in values(u, d, thorough) {
        out.add("values", 1);
        let expected = codec::encode(u, d, &v, UnitArrays::Documented);
        match encode(&t[d], &v) {
            Enc::Bytes(size, got) => {
                out.outcome(&got);
                out.add("field_writes", field_steps(&v));
                if size != got.len() {
                    out.violation(d, &format!("size() is {size} but {} bytes are written for {}", got.len(), v.show()));
                }
                if got != expected {
                    if units && got == codec::encode(u, d, &v, UnitArrays::SizePrefixed) {
                        out.known("D23", || {
                            format!("{} = {} is written as {} instead of {}", u.decls[d].name, v.show(), hex_short(&got), hex_short(&expected))
                        });
                    } else {
                        out.violation(d, &format!("{} is written as {} instead of {}", v.show(), hex_short(&got), hex_short(&expected)));
                    }
                }
                if d % 7 == 6 && out.counts["values"] % 97 == 1 {
                    out.sample(format!("{} {} -> {} (size {size})", u.decls[d].name, v.show(), hex_short(&got)));
                }
            }
            Enc::Err(e) => out.violation(d, &format!("serialize fails with {e:?} for {}", v.show())),
            Enc::Panic(p) => out.violation(d, &format!("serialize panics ({p}) for {}", v.show())),
        }
    }
}

