//! PRNG, case runner, result collection.
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    /// Numbers clustered at encoding boundaries.
    pub fn edgy(&mut self) -> u64 {
        const E: [u64; 17] = [0, 1, 2, 127, 128, 250, 251, 252, 255, 256, 65535, 65536, u32::MAX as u64,
            u32::MAX as u64 + 1, 1 << 63, u64::MAX - 1, u64::MAX];
        match self.below(4) { 0 => E[self.us(E.len())], 1 => self.below(300), 2 => self.below(1 << 20), _ => self.u64() }
    }
}
pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

/// What a failing case reports. `kind` selects the property aspect it breaks.
#[derive(Debug, Clone)]
pub struct Bad { pub kind: &'static str, pub msg: String }
pub type R<T = ()> = Result<T, Bad>;
pub fn bad<T>(kind: &'static str, msg: impl Into<String>) -> R<T> { Err(Bad { kind, msg: msg.into() }) }
#[macro_export]
macro_rules! ensure { ($c:expr, $k:expr, $($a:tt)*) => { if !($c) { return $crate::core::bad($k, format!($($a)*)); } } }

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static BEAT: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub struct Ctx {
    pub prop: String, pub seed: u64, pub thorough: bool,
    pub only: Option<String>, pub kinds: &'static [&'static str],
    pub evals: u64, pub cases: u64, pub distinct: BTreeSet<u64>, pub samples: Vec<String>,
    pub fails: Vec<(String, Bad)>, pub other: Vec<(String, Bad)>,
    pub known: Vec<(String, String)>,
    pub start: Instant, pub budget: Duration, pub skipped: u64,
    pub progress: Option<String>, pub scratch: std::path::PathBuf,
}
impl Ctx {
    pub fn rng(&self, name: &str) -> Rng { Rng::new(fnv(name) ^ self.seed.wrapping_mul(0x5851_F42D_4C95_7F2D)) }
    pub fn over(&self) -> bool { self.start.elapsed() > self.budget }
    pub fn stop(&self) -> bool { self.fails.len() >= 5 }
    pub fn eval(&mut self, n: u64) { self.evals += n; }
    pub fn note(&mut self, fp: u64) { self.distinct.insert(fp); }
    pub fn case(&mut self, name: &str, f: impl FnOnce(&mut Ctx) -> R) {
        if let Some(o) = &self.only { if o != name { return; } }
        if self.stop() || self.over() { self.skipped += 1; return; }
        *CURRENT.lock().unwrap() = name.to_string();
        BEAT.fetch_add(1, Ordering::SeqCst);
        if let Some(p) = &self.progress { if let Ok(mut f) = std::fs::File::create(p) { let _ = f.write_all(name.as_bytes()); } }
        self.cases += 1;
        let e0 = self.evals;
        let t0 = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut *self)));
        if std::env::var_os("PDRIVER_TIMES").is_some() && t0.elapsed().as_millis() > 300 { eprintln!("{:.2}s {name}", t0.elapsed().as_secs_f64()); }
        if self.evals == e0 { self.evals += 1; }
        self.note(fnv(name));
        if self.samples.len() < 12 && (self.cases.is_power_of_two() || self.cases % 97 == 0) { self.samples.push(name.to_string()); }
        let b = match r {
            Ok(Ok(())) => return,
            Ok(Err(b)) => b,
            Err(_) => Bad { kind: "panic", msg: format!("panic: {}", PANIC.with(|p| p.borrow().clone())) },
        };
        self.push(name, b);
    }
    pub fn push(&mut self, name: &str, b: Bad) {
        if b.kind == "known" {
            self.known.push((name.to_string(), b.msg)); return;
        }
        if self.kinds.is_empty() || self.kinds.contains(&b.kind) { self.fails.push((name.to_string(), b)); }
        else if self.other.len() < 20 { self.other.push((name.to_string(), b)); }
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c),
        }
    }
    o.push('"'); o
}
pub fn emit(c: &Ctx) -> String {
    let list = |v: &[(String, Bad)]| v.iter().map(|(n, b)| format!("{{\"case\":{},\"kind\":{},\"msg\":{}}}", jstr(n), jstr(b.kind), jstr(&b.msg.chars().take(2000).collect::<String>()))).collect::<Vec<_>>().join(",");
    format!("{{\"property\":{},\"seed\":{},\"cases\":{},\"evaluations\":{},\"distinct\":{},\"skipped_over_budget\":{},\"wall_s\":{:.2},\"samples\":[{}],\"failures\":[{}],\"other\":[{}],\"known\":[{}]}}",
        jstr(&c.prop), c.seed, c.cases, c.evals, c.distinct.len(), c.skipped, c.start.elapsed().as_secs_f64(),
        c.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), list(&c.fails), list(&c.other),
        c.known.iter().map(|(n, m)| format!("{{\"id\":{},\"msg\":{}}}", jstr(n), jstr(m))).collect::<Vec<_>>().join(","))
}
pub fn hex(b: &[u8]) -> String { b.iter().take(600).map(|x| format!("{x:02x}")).collect() }
pub fn fnvb(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in b { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
