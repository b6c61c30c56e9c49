//! Concrete replay / assumption-validation runtime shared by the harness crates.
//! A harness executes the compiled code of /repo against an executable oracle on a bounded,
//! seeded set of inputs.  It never decides that a property is proved: it replays failed
//! obligations, validates assumed contracts and stands in (labelled bounded) for functions
//! outside the verifier's reach.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn perm(&mut self, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); self.shuffle(&mut v); v }
}

static CASE: AtomicU64 = AtomicU64::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    deadline: Instant,
    only: Option<u64>,
    status: Option<std::fs::File>,
    out: String,
    pub kinds: BTreeMap<String, u64>,
    pub known: Vec<String>,
    distinct: std::collections::HashSet<u64>,
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! chk {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } h }

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}

/// did the closure panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
/// value of the closure or the panic message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", LAST_PANIC.lock().unwrap()))
}

impl Ctx {
    /// true while the random phase may go on
    pub fn more(&self) -> bool { self.only.is_none() && Instant::now() < self.deadline || self.only.map_or(false, |n| CASE.load(Ordering::SeqCst) < n) }
    pub fn case(&mut self, kind: &str, desc: impl FnOnce() -> String, f: impl FnOnce() -> R) {
        let n = CASE.fetch_add(1, Ordering::SeqCst) + 1;
        if let Some(o) = self.only { if o != n { return; } }
        let d = desc();
        { let mut c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()); c.0 = kind.to_string(); c.1 = d.clone(); }
        if let Some(f) = &mut self.status {
            use std::os::unix::fs::FileExt;
            let s = format!("{:>12}\n{:<8}\n{}\n{}\n", n, d.len(), kind, d);
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
        BEAT.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        BEAT.fetch_add(1, Ordering::SeqCst);
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        if self.distinct.len() < 2_000_000 { self.distinct.insert(hash(&d) ^ hash(kind)); }
        let msg = match r { Ok(Ok(())) => return, Ok(Err(m)) => m, Err(_) => format!("panicked: {}", LAST_PANIC.lock().unwrap()) };
        fail(&self.out, n, kind, &d, &msg);
    }
    /// A listed known finding: `still` says whether it still shows.
    pub fn known(&mut self, key: &str, f: impl FnOnce() -> bool) {
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or(true);
        if r { self.known.push(key.to_string()); }
    }
}

fn fail(out: &str, n: u64, kind: &str, d: &str, msg: &str) -> ! {
    let s = format!("{{\"result\":\"fail\",\"case\":{},\"kind\":{},\"input\":{},\"observed\":{}}}\n", n, esc(kind), esc(d), esc(msg));
    let _ = std::fs::write(out, &s);
    println!("FAIL case={} kind={} input={} observed={}", n, kind, d, msg);
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

/// main(name, table): CLI `harness PID --out F [--seed N] [--secs S] [--thorough] [--case N] [--status F] [--hang S]`
pub fn run(table: &[(&str, fn(&mut Ctx))]) {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let pid = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let hang: u64 = get("--hang").and_then(|s| s.parse().ok()).unwrap_or(20);
    let out = get("--out").unwrap_or("/dev/null".into());
    let status = get("--status").and_then(|p| std::fs::File::create(p).ok());
    let mut ctx = Ctx {
        rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash(&pid)), seed, thorough: a.iter().any(|x| x == "--thorough"),
        deadline: Instant::now() + Duration::from_secs_f64(secs), only: get("--case").and_then(|s| s.parse().ok()), status,
        out: out.clone(), kinds: BTreeMap::new(), known: vec![], distinct: Default::default(),
    };
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() { *g = format!("{} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()); }
    }));
    {
        let out = out.clone();
        std::thread::spawn(move || {
            let mut last = 0; let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let b = BEAT.load(Ordering::SeqCst);
                if b != last || b % 2 == 0 { last = b; since = Instant::now(); continue; }
                if since.elapsed().as_secs() >= hang {
                    let (k, d) = { let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()); (c.0.clone(), c.1.clone()) };
                    fail(&out, CASE.load(Ordering::SeqCst), &k, &d, &format!("no result after {hang} s (does not terminate)"));
                }
            }
        });
    }
    let f = table.iter().find(|t| t.0 == pid).map(|t| t.1).unwrap_or_else(|| { println!("no such property"); std::process::exit(3) });
    let t0 = Instant::now();
    // a big stack: the code under test may recurse
    let (kinds, known, distinct) = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || { f(&mut ctx); (ctx.kinds, ctx.known, ctx.distinct.len()) }).unwrap();
        match h.join() { Ok(x) => x, Err(_) => { println!("HARNESS-ERROR {}", LAST_PANIC.lock().unwrap()); std::process::exit(4) } }
    });
    let total: u64 = kinds.values().sum();
    let ks: Vec<String> = kinds.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let kn: Vec<String> = known.iter().map(|k| esc(k)).collect();
    let s = format!("{{\"result\":\"ok\",\"cases\":{},\"distinct\":{},\"kinds\":{{{}}},\"known\":[{}],\"secs\":{:.2}}}\n", total, distinct, ks.join(","), kn.join(","), t0.elapsed().as_secs_f64());
    let _ = std::fs::write(&out, &s);
    println!("OK {}", s.trim());
}
