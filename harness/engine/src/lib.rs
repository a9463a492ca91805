//! A small deterministic property-based testing engine.
//!
//! A check is a function of a [`Src`]: an (endless) sequence of integer choices. Generators draw
//! from it; a case is therefore fully described by the recorded choice sequence, which is what is
//! shrunk (delete / zero / reduce choices) and written to the replay file.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

macro_rules! say {
    ($($x:tt)*) => { say_line(format!($($x)*)) };
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Source of choices.
pub struct Src {
    rng: u64,
    input: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// size hint in 0..=100
    pub size: u64,
}

impl Src {
    pub fn random(seed: u64, size: u64) -> Self {
        Src { rng: seed, input: None, pos: 0, rec: vec![], size }
    }
    pub fn replay(choices: Vec<u64>, size: u64) -> Self {
        Src { rng: 0, input: Some(choices), pos: 0, rec: vec![], size }
    }
    fn raw(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.rng)
    }
    /// uniform in [0,n)
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "below(0)");
        let v = match &self.input {
            Some(i) => {
                let v = i.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
            None => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi, "usize range {} {}", lo, hi);
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// Size-scaled upper bound: between lo and lo+(hi-lo)*size/100.
    pub fn sized(&mut self, lo: usize, hi: usize) -> usize {
        let h = lo + ((hi - lo) as u64 * self.size / 100) as usize;
        self.usize(lo, h.max(lo))
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        // choice 0 maps to the value closest to zero inside the range, so that shrinking simplifies
        let n = (hi - lo + 1) as u64;
        let c = self.below(n) as i64;
        let z = 0.clamp(lo, hi);
        // enumerate z, z+1, z-1, z+2, z-2 ... clipped
        let up = hi - z;
        let down = z - lo;
        let m = up.min(down);
        if c <= 2 * m {
            if c % 2 == 1 { z + (c + 1) / 2 } else { z - c / 2 }
        } else {
            let r = c - 2 * m;
            if up > down { z + m + r } else { z - m - r }
        }
    }
    /// uniform in [lo,hi], now and then in [hi,big]
    pub fn few(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        let large = big > hi && self.chance(1, 24);
        if large { self.usize(hi, big) } else { self.usize(lo, hi) }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den (choice 0 = false)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// multiples of 1/den in [lo,hi]
    pub fn grid(&mut self, lo: i64, hi: i64, den: i64) -> f64 {
        self.int(lo * den, hi * den) as f64 / den as f64
    }
    /// "random" real in [lo,hi]
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        let k = self.below(1 << 40) as f64 / ((1u64 << 40) - 1) as f64;
        lo + (hi - lo) * k
    }
    /// A positive real with log-uniform magnitude in [2^lo, 2^hi]; choice 0 is 1.0
    pub fn scale(&mut self, lo: i64, hi: i64) -> f64 {
        match self.below(3) {
            0 => 1.0,
            1 => 2f64.powi(self.int(lo, hi) as i32),
            _ => {
                let e = self.int(lo, hi - 1) as i32;
                2f64.powi(e) * (1.0 + self.real(0.0, 1.0))
            }
        }
    }
    pub fn angle(&mut self) -> f64 {
        use std::f64::consts::PI;
        match self.below(4) {
            0 => 0.0,
            1 => self.int(-8, 8) as f64 * PI / 8.0,
            2 => self.int(-12, 12) as f64 * PI / 6.0,
            _ => self.real(-PI, PI),
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below((n - i) as u64) as usize;
            v.swap(i, j);
        }
        v
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) {
            return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($a)*) });
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail { sig: ($sig).to_string(),
                msg: format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b) });
        }
    }};
}

/// Per-case context.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    /// The property does not apply to the generated case (counted, not evaluated).
    pub discarded: bool,
    pub trace: Vec<String>,
    pub labels: Vec<&'static str>,
}
impl Ctx {
    pub fn log(&mut self, s: impl FnOnce() -> String) {
        let s = s();
        CASE_TRACE.with(|t| t.borrow_mut().push(s.clone()));
        self.trace.push(s);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn discard(&mut self) -> Res {
        self.discarded = true;
        Ok(())
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Target {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CheckFn,
}
pub fn target(name: &'static str, quick: u64, thorough: u64, f: CheckFn) -> Target {
    Target { name, quick, thorough, f }
}

/// A confirmed, unrepaired defect of the code under test: a pinned input that still fails.
pub struct Known {
    pub id: &'static str,
    /// Some(description) if the pinned input still fails (in the recorded way).
    pub pinned: fn() -> Option<String>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub targets: Vec<Target>,
    pub known: Vec<Known>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CASE_TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or(("?".into(), 0));
        let short = file.rsplit("/src/").next().unwrap_or(&file).to_string();
        if std::env::var("VP_BT").is_ok() {
            eprintln!("panic at {}:{}: {}\n{}", file, line, msg, std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC_MSG.try_with(|p| {
            *p.borrow_mut() = Some((short, format!("panicked at {}:{}: {}", file, line, msg)));
        });
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .map(|x| x.1)
            .unwrap_or_default()),
    }
}

fn run_case(f: CheckFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    CASE_TRACE.with(|t| t.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let (file, msg) = PANIC_MSG
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "panic".into()));
            if ctx.trace.is_empty() {
                CASE_TRACE.with(|t| ctx.trace = t.borrow().clone());
            }
            fail(format!("panic:{}", file), msg)
        }
    }
}

struct Failure {
    index: u64,
    size: u64,
    choices: Vec<u64>,
    fail: Fail,
    trace: Vec<String>,
}

fn shrink(f: CheckFn, mut best: Failure, budget: &mut u64) -> Failure {
    let t0 = Instant::now();
    let sig = best.fail.sig.clone();
    let size = best.size;
    // candidates are accepted if they fail with the same signature
    let mut try_it = |cand: &[u64], budget: &mut u64| -> Option<(Vec<u64>, Fail, Vec<String>)> {
        if *budget == 0 || t0.elapsed().as_secs() > 90 {
            *budget = 0;
            return None;
        }
        *budget -= 1;
        let mut s = Src::replay(cand.to_vec(), size);
        let mut c = Ctx::default();
        match run_case(f, &mut s, &mut c) {
            Err(e) if e.sig == sig => Some((s.rec, e, c.trace)),
            _ => None,
        }
    };
    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }
    loop {
        let before = best.choices.clone();
        // delete chunks
        let mut k = best.choices.len().next_power_of_two().max(1);
        while k >= 1 {
            let mut i = best.choices.len();
            while i > 0 {
                let lo = i.saturating_sub(k);
                let mut cand = best.choices.clone();
                cand.drain(lo..i.min(cand.len()));
                if cand.len() < best.choices.len() {
                    if let Some((r, e, t)) = try_it(&cand, budget) {
                        if better(&r, &best.choices) {
                            best.choices = r;
                            best.fail = e;
                            best.trace = t;
                        }
                    }
                }
                i = lo.min(best.choices.len());
            }
            k /= 2;
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i < best.choices.len() {
                let hi = (i + k).min(best.choices.len());
                if best.choices[i..hi].iter().any(|x| *x != 0) {
                    let mut cand = best.choices.clone();
                    cand[i..hi].iter_mut().for_each(|x| *x = 0);
                    if let Some((r, e, t)) = try_it(&cand, budget) {
                        if better(&r, &best.choices) {
                            best.choices = r;
                            best.fail = e;
                            best.trace = t;
                        }
                    }
                }
                i += k;
            }
        }
        // reduce values by binary search
        let mut i = 0;
        while i < best.choices.len() {
            let mut lo = 0u64;
            let mut hi = best.choices[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.choices.clone();
                cand[i] = mid;
                match try_it(&cand, budget) {
                    Some((r, e, t)) if better(&r, &best.choices) => {
                        let l = r.len();
                        best.choices = r;
                        best.fail = e;
                        best.trace = t;
                        hi = mid;
                        if i >= l {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best.choices == before || *budget == 0 {
            return best;
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct TargetStats {
    name: &'static str,
    evaluations: u64,
    discarded: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    labels: std::collections::BTreeMap<&'static str, u64>,
    secs: f64,
}

static PROGRESS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CASE_LIMIT_S: AtomicU64 = AtomicU64::new(0);
static WORK_OVER: AtomicBool = AtomicBool::new(false);

fn case_seed(prop: &str, target: &str, seed: u64, i: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(format!("{}/{}", prop, target).as_bytes())) ^ mix(i))
}
fn case_size(n: u64, i: u64) -> u64 {
    // sizes sweep from small to large, several times over
    if n < 20 { 100 } else { 5 + (i * 97 + i / 16) % 96 }
}
fn progress_dir() -> String {
    format!("{}/replays/progress-{}", std::env::var("VP_ROOT").unwrap_or("/verif".into()), std::env::var("VP_RUN").unwrap_or_default())
}
/// What each worker is about to do, on disk, so that the supervisor can tell what killed the process.
struct Progress(Option<std::fs::File>);
impl Progress {
    fn new(th: usize) -> Self {
        if std::env::var("VP_RUN").is_err() {
            return Progress(None);
        }
        Progress(std::fs::File::create(format!("{}/{}", progress_dir(), th)).ok())
    }
    fn set(&self, target: &str, index: u64, size: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(format!("{:<40} {:>16} {:>4}\n", target, index, size).as_bytes(), 0);
        }
    }
    fn clear(&self) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(b"-", 0);
        }
    }
}

fn run_target(
    t: &Target,
    prop: &str,
    seed: u64,
    n: u64,
    threads: usize,
    start: Instant,
) -> (TargetStats, Option<Failure>) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let out: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let stats = Mutex::new(TargetStats {
        name: t.name,
        evaluations: 0,
        discarded: 0,
        nontrivial: HashSet::new(),
        samples: vec![],
        labels: Default::default(),
        secs: 0.0,
    });
    let samples: Mutex<std::collections::BTreeMap<u64, String>> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (next, min_fail, out, stats, samples) = (&next, &min_fail, &out, &stats, &samples);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let prog = Progress::new(th);
                    let mut evals = 0;
                    let mut disc = 0;
                    let mut keys = HashSet::new();
                    let mut labels: std::collections::BTreeMap<&'static str, u64> = Default::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        PROGRESS[th].store(start.elapsed().as_secs() + 1, Ordering::SeqCst);
                        let size = case_size(n, i);
                        prog.set(t.name, i, size);
                        let mut s = Src::random(case_seed(prop, t.name, seed, i), size);
                        let mut c = Ctx::default();
                        let r = run_case(t.f, &mut s, &mut c);
                        PROGRESS[th].store(0, Ordering::SeqCst);
                        prog.clear();
                        evals += 1;
                        if c.discarded {
                            disc += 1;
                        }
                        for l in &c.labels {
                            *labels.entry(l).or_insert(0) += 1;
                        }
                        if c.nontrivial && !c.discarded {
                            let mut b = Vec::with_capacity(s.rec.len() * 8);
                            for x in &s.rec {
                                b.extend_from_slice(&x.to_le_bytes());
                            }
                            keys.insert(hash_bytes(&b));
                            let mut sm = samples.lock().unwrap();
                            if sm.len() < 3 || *sm.keys().next_back().unwrap() > i {
                                let mut d = c.trace.join("; ");
                                if d.len() > 400 {
                                    let mut k = 400;
                                    while !d.is_char_boundary(k) { k -= 1; }
                                    d.truncate(k);
                                    d.push_str("...");
                                }
                                sm.insert(i, d);
                                if sm.len() > 3 {
                                    let k = *sm.keys().next_back().unwrap();
                                    sm.remove(&k);
                                }
                            }
                        }
                        if let Err(e) = r {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            out.lock().unwrap().push(Failure {
                                index: i,
                                size,
                                choices: s.rec,
                                fail: e,
                                trace: c.trace,
                            });
                        }
                    }
                    let mut st = stats.lock().unwrap();
                    st.evaluations += evals;
                    st.discarded += disc;
                    st.nontrivial.extend(keys);
                    for (k, v) in labels {
                        *st.labels.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    let mut st = stats.into_inner().unwrap();
    st.samples = samples.into_inner().unwrap().into_values().collect();
    st.secs = t0.elapsed().as_secs_f64();
    let mut fails = out.into_inner().unwrap();
    fails.sort_by_key(|f| f.index);
    (st, fails.into_iter().next())
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

/// Runs the check in a child process. If that dies (stack overflow, out of memory) or gets stuck, the cases
/// which were running are re-run one by one; a case that does so again is a violation.
fn supervise(p: &Property, args: &[String], seed: u64, root: &str) -> ! {
    use std::process::Command;
    let exe = std::env::current_exe().expect("exe");
    let run = format!("{}-{}", p.id, std::process::id());
    std::env::set_var("VP_RUN", &run);
    let dir = progress_dir();
    let _ = std::fs::create_dir_all(&dir);
    let st = Command::new(&exe).args(&args[1..]).status().expect("child");
    let code = st.code();
    if matches!(code, Some(0..=2)) {
        let _ = std::fs::remove_dir_all(&dir);
        std::process::exit(code.unwrap());
    }
    let mut cands = vec![];
    for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        let s = std::fs::read_to_string(f.path()).unwrap_or_default();
        let w: Vec<&str> = s.split_whitespace().collect();
        if w.len() == 3 && !s.starts_with('-') {
            cands.push((w[0].to_string(), w[1].to_string(), w[2].to_string()));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    cands.sort();
    eprintln!("the check's process ended with {:?}; re-running {} cases", st, cands.len());
    std::env::remove_var("VP_RUN");
    let mut kids: Vec<_> = cands
        .iter()
        .map(|c| {
            Command::new(&exe)
                .args([p.id, "--case", &format!("{}:{}:{}", c.0, c.1, c.2)])
                .stdout(std::process::Stdio::null())
                .spawn()
                .expect("child")
        })
        .collect();
    let t0 = Instant::now();
    let mut bad: Option<(usize, String)> = None;
    while bad.is_none() {
        let mut alive = vec![];
        for (i, k) in kids.iter_mut().enumerate() {
            match k.try_wait() {
                Ok(Some(s)) => {
                    if !matches!(s.code(), Some(0)) && bad.is_none() {
                        bad = Some((i, format!("the case ended the process with {:?}", s)));
                    }
                }
                _ => alive.push(i),
            }
        }
        if alive.is_empty() {
            break;
        }
        if t0.elapsed().as_secs() > 120 && bad.is_none() {
            bad = Some((alive[0], "the case does not terminate (120 s)".into()));
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    match bad {
        None => {
            eprintln!("ERROR: not reproducible; inconclusive");
            std::process::exit(2)
        }
        Some((i, what)) => {
            let dir = format!("{}/replays", root);
            let (t, ix, sz) = &cands[i];
            let path = format!("{}/{}-{}.json", dir, p.id, t);
            let _ = std::fs::write(
                &path,
                format!(
                    "{{\"property\":{},\"target\":{},\"seed\":{},\"index\":{},\"size\":{},\"signature\":\"process\",\"message\":{}}}\n",
                    jstr(p.id), jstr(t), seed, ix, sz, jstr(&what)
                ),
            );
            say!("  case {}:{}:{}: {}", t, ix, sz, what);
            say!("VIOLATION property={} replay={}", p.id, path);
            let ev = format!(
                "{{\n\"property\":{},\n\"tier\":\"quick\",\n\"seed\":{},\n\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":{},\"samples\":[{}]}},\n\"wall_s\":{:.2},\n\"violations\":1,\n\"assumptions\":[]\n}}\n",
                jstr(p.id), seed, jstr(p.rule), jstr(&what), t0.elapsed().as_secs_f64()
            );
            let _ = std::fs::create_dir_all(format!("{}/evidence", root));
            let _ = std::fs::write(format!("{}/evidence/{}.json", root, p.id), ev);
            std::process::exit(1)
        }
    }
}

/// Entry point of a check binary.
/// The engine's own output. The code under test may print, which is dropped.
static OUT: std::sync::OnceLock<std::sync::Mutex<std::fs::File>> = std::sync::OnceLock::new();
fn say_out() -> &'static std::sync::Mutex<std::fs::File> {
    OUT.get_or_init(|| {
        use std::os::fd::FromRawFd;
        extern "C" {
            fn dup(fd: i32) -> i32;
            fn dup2(a: i32, b: i32) -> i32;
        }
        use std::os::fd::AsRawFd;
        let f = unsafe { std::fs::File::from_raw_fd(dup(1)) };
        if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            unsafe { dup2(null.as_raw_fd(), 1) };
        }
        std::sync::Mutex::new(f)
    })
}
fn say_line(s: String) {
    use std::io::Write;
    if OUT.get().is_none() {
        println!("{}", s);
        return;
    }
    let _ = say_out().lock().unwrap().write_all((s + "\n").as_bytes());
}

/// Fast checks get more cases in both tiers.
fn boost(id: &str) -> u64 {
    match id {
        "P26" => 16,
        "P27" => 6,
        "P15" | "P24" | "P25" => 4,
        "P03" | "P05" | "P06" => 3,
        "P08" | "P12" | "P13" => 2,
        _ => 1,
    }
}

pub fn main(mut props: Vec<Property>) -> ! {
    for p in &mut props {
        for t in &mut p.targets {
            t.quick *= boost(p.id);
            t.thorough *= boost(p.id);
        }
    }
    // children inherit the original standard output, so the supervisor must not redirect it before starting them
    if std::env::var("VP_RUN").is_ok() || std::env::var("VP_DIRECT").is_ok() || std::env::args().any(|a| a == "--case" || a == "--replay") {
        say_out();
    }
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "list" {
        for p in &props {
            for t in &p.targets {
                say!("{} {} quick={} thorough={}", p.id, t.name, t.quick, t.thorough);
            }
        }
        std::process::exit(0);
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        std::process::exit(2);
    };
    if let Some(file) = arg(&args, "--replay") {
        std::process::exit(replay(p, &file));
    }
    let tier = arg(&args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1);
    let only = arg(&args, "--target");
    let factor: f64 = arg(&args, "--factor").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let root = std::env::var("VP_ROOT").unwrap_or("/verif".into());
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let start = Instant::now();

    if arg(&args, "--case").is_none() && std::env::var("VP_RUN").is_err() && std::env::var("VP_DIRECT").is_err() {
        supervise(p, &args, seed, &root);
    }
    if let Some(c) = arg(&args, "--case") {
        // one case of a random run: target:index:size
        let q: Vec<&str> = c.split(':').collect();
        let t = p.targets.iter().find(|t| t.name == q[0]).expect("target");
        let (i, size): (u64, u64) = (q[1].parse().unwrap(), q[2].parse().unwrap());
        let (f, cs) = (t.f, case_seed(p.id, t.name, seed, i));
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let mut c = Ctx::default();
                let r = run_case(f, &mut Src::random(cs, size), &mut c);
                for l in &c.trace {
                    say!("  {}", l);
                }
                r
            })
            .unwrap()
            .join();
        std::process::exit(match r {
            Ok(Ok(())) => 0,
            Ok(Err(e)) => {
                say!("[{}] {}", e.sig, e.msg);
                1
            }
            Err(_) => 2,
        });
    }
    // watchdog: exit 3 makes the supervisor look for the stuck case
    CASE_LIMIT_S.store(if tier == "thorough" { 400 } else { 100 }, Ordering::SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if WORK_OVER.load(Ordering::SeqCst) {
            return;
        }
        let now = start.elapsed().as_secs() + 1;
        for (i, p) in PROGRESS.iter().enumerate() {
            let s = p.load(Ordering::SeqCst);
            if s != 0 && now > s + CASE_LIMIT_S.load(Ordering::SeqCst) {
                eprintln!("a case did not finish within the limit (thread {})", i);
                std::process::exit(3);
            }
        }
    });

    let mut violations = vec![];
    let mut all = vec![];
    for t in &p.targets {
        if let Some(o) = &only {
            if !t.name.contains(o.as_str()) {
                continue;
            }
        }
        let n = if tier == "thorough" { t.thorough } else { t.quick };
        let n = ((n as f64 * factor) as u64).max(1);
        let (st, fl) = run_target(t, p.id, seed, n, threads, start);
        say!(
            "{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1}s {}",
            p.id,
            t.name,
            st.evaluations,
            st.nontrivial.len(),
            st.discarded,
            st.secs,
            st.labels.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
        );
        if let Some(fl) = fl {
            let mut budget = 3000;
            let idx = fl.index;
            PROGRESS[60].store(start.elapsed().as_secs() + 1, Ordering::SeqCst);
            let mut fl = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || shrink(t.f, fl, &mut budget))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            PROGRESS[60].store(0, Ordering::SeqCst);
            fl.index = idx;
            let dir = format!("{}/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{}.json", dir, p.id, t.name);
            let mut f = std::fs::File::create(&path).expect("replay file");
            writeln!(
                f,
                "{{\"property\":{},\"target\":{},\"seed\":{},\"index\":{},\"size\":{},\"signature\":{},\"message\":{},\"trace\":[{}],\"choices\":[{}]}}",
                jstr(p.id), jstr(t.name), seed, fl.index, fl.size, jstr(&fl.fail.sig), jstr(&fl.fail.msg),
                fl.trace.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
                fl.choices.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(",")
            ).unwrap();
            say!("  failing case #{} [{}] {}", fl.index, fl.fail.sig, fl.fail.msg);
            for l in fl.trace.iter().take(60) {
                say!("    {}", l);
            }
            say!("VIOLATION property={} replay={}", p.id, path);
            violations.push(path);
        }
        all.push(st);
    }
    let mut known_lines = vec![];
    // only what the committed file lists is a known finding; a failing pinned input that is not listed is a violation
    let listed = std::fs::read_to_string(format!("{}/known_findings.json", root)).unwrap_or_default();
    for k in &p.known {
        if let Some(d) = catch(k.pinned).unwrap_or_else(|m| Some(format!("{} ({})", k.id, m))) {
            if !listed.contains(&format!("property={} {}:", p.id, k.id)) {
                say!("  {} {}", k.id, d);
                say!("VIOLATION property={} replay={}", p.id, k.id);
                violations.push(k.id.to_string());
                continue;
            }
            let line = format!("KNOWN-FINDING: property={} {}: {}", p.id, k.id, d);
            say!("{}", line);
            known_lines.push(line);
        }
    }
    WORK_OVER.store(true, Ordering::SeqCst);
    if only.is_none() && factor == 1.0 {
        let evals: u64 = all.iter().map(|s| s.evaluations).sum();
        let nt: usize = all.iter().map(|s| s.nontrivial.len()).sum();
        let samples: Vec<String> = all
            .iter()
            .flat_map(|s| s.samples.iter().take(2).map(move |d| jstr(&format!("[{}] {}", s.name, d))))
            .collect();
        let per: Vec<String> = all
            .iter()
            .map(|s| {
                format!(
                    "{{\"target\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"discarded\":{},\"labels\":{{{}}}}}",
                    jstr(s.name),
                    s.evaluations,
                    s.nontrivial.len(),
                    s.discarded,
                    s.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let ev = format!(
            "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"exploration\",\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"targets\":[{}]}},\n\"wall_s\":{:.2},\n\"violations\":{},\n\"known_findings\":[{}],\n\"assumptions\":[{}]\n}}\n",
            jstr(p.id), jstr(&tier), seed, evals, nt, jstr(p.rule), samples.join(",\n"), per.join(",\n"),
            start.elapsed().as_secs_f64(),
            violations.len(),
            known_lines.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        );
        let dir = format!("{}/evidence", root);
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, p.id), ev).expect("evidence");
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

fn json_num(s: &str, key: &str) -> Option<u64> {
    let i = s.find(&format!("\"{}\":", key))? + key.len() + 3;
    s[i..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
}
fn json_str(s: &str, key: &str) -> Option<String> {
    let i = s.find(&format!("\"{}\":\"", key))? + key.len() + 4;
    Some(s[i..].chars().take_while(|c| *c != '"').collect())
}

fn replay(p: &Property, file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let name = json_str(&s, "target").expect("target");
    let size = json_num(&s, "size").unwrap_or(100);
    let t = p.targets.iter().find(|t| t.name == name).expect("unknown target");
    let Some(i) = s.rfind("\"choices\":[") else {
        let seed = json_num(&s, "seed").unwrap_or(1);
        let ix = json_num(&s, "index").expect("index");
        say!("re-running case {} of seed {} (no shrunk input: it kills or blocks the process)", ix, seed);
        let (f, cs) = (t.f, case_seed(p.id, t.name, seed, ix));
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || run_case(f, &mut Src::random(cs, size), &mut Ctx::default()))
            .unwrap();
        let t0 = Instant::now();
        while !h.is_finished() && t0.elapsed().as_secs() < 120 {
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        if h.is_finished() && matches!(h.join(), Ok(Ok(()))) {
            say!("replay: holds");
            return 0;
        }
        say!("VIOLATION property={} replay={}", p.id, file);
        return 1;
    };
    let i = i + 11;
    let choices: Vec<u64> = s[i..]
        .split(']')
        .next()
        .unwrap()
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    let f = t.f;
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut src = Src::replay(choices, size);
            let mut c = Ctx::default();
            let r = run_case(f, &mut src, &mut c);
            for l in &c.trace {
                say!("  {}", l);
            }
            r
        })
        .unwrap();
    match h.join().unwrap() {
        Ok(()) => {
            say!("replay: holds");
            0
        }
        Err(e) => {
            say!("replay: [{}] {}", e.sig, e.msg);
            say!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}
