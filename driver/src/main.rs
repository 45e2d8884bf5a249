//! Runs the real library against independent oracles. Used to replay failed obligations on the real
//! code and as the labelled bounded stand-in where a function is out of the verifier's reach.
#[macro_use]
mod core;
mod layout;
#[macro_use]
mod mapholder;
mod p_rt;
mod p_sys;
mod zoo;
use core::*;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    let kinds: &'static [&'static str] = match prop.as_str() {
        "C01" => &["rt"], "C02" => &["load", "write"], "C03" => &["get", "write"], "C04" => &["iter", "write"], "C05" => &["lazy", "write"], "C06" => &["lookup", "write"], "C07" => &["mapload", "write"],
        "C08" => &["codec"], "C09" => &["enc"], "C10" => &["layout", "order", "write"], "C11" => &["hostile"], "C12" => &["mem"], "C13" => &["sink"], "C14" => &["agree"], "C15" => &["local"],
        "C16" => &["inspect"], "C17" => &["shards", "write"], "C18" => &["open"], "C19" => &["tasks"], "C20" => &["parse"], "C21" => &["append"], "C22" => &["id", "write"],
        _ => { eprintln!("unknown property {prop:?}"); std::process::exit(2) }
    };
    let kinds: &'static [&'static str] = Box::leak(kinds.iter().copied().chain(["panic"]).collect::<Vec<_>>().into_boxed_slice());
    let scratch = std::path::PathBuf::from(get("--scratch").unwrap_or_else(|| format!("/tmp/pdriver.{}", std::process::id())));
    std::fs::create_dir_all(&scratch).unwrap();
    let hang: u64 = get("--hang").and_then(|s| s.parse().ok()).unwrap_or(120);
    let mut c = Ctx { prop: prop.clone(), seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), thorough: get("--tier").as_deref() == Some("thorough"), only: get("--only"), kinds,
        evals: 0, cases: 0, distinct: Default::default(), samples: vec![], fails: vec![], other: vec![], known: vec![], start: Instant::now(),
        budget: Duration::from_secs(get("--budget").and_then(|s| s.parse().ok()).unwrap_or(100)), skipped: 0, progress: get("--progress"), scratch: scratch.clone() };
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let m = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    std::thread::spawn(move || { // hang watchdog
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last.0 { last = (b, Instant::now()); }
            else if b > 0 && last.1.elapsed() > Duration::from_secs(hang) { println!("HANG {}", CURRENT.lock().map(|s| s.clone()).unwrap_or_default()); std::process::exit(97); }
        }
    });
    // run on a thread with a default-sized stack, as a caller's would be
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let c = &mut c;
        match prop.as_str() {
            "C01" => p_rt::c01(c), "C02" => p_rt::c02(c), "C03" => p_rt::c03(c), "C04" => p_rt::c04(c), "C05" => p_rt::c05(c), "C06" => p_rt::c06(c), "C07" => p_rt::c07(c),
            "C08" => p_sys::c08(c), "C09" => p_sys::c09(c), "C10" => p_rt::c10(c), "C11" => p_sys::c11(c), "C12" => p_sys::c12(c), "C13" => p_sys::c13(c), "C14" => p_rt::c14(c), "C15" => p_sys::c15(c),
            "C16" => p_rt::c16(c), "C17" => p_rt::c17(c), "C18" => p_sys::c18(c), "C19" => p_sys::c19(c), "C20" => p_sys::c20(c), "C21" => p_sys::c21(c), _ => p_rt::c22(c),
        }
        BEAT.store(0, Ordering::SeqCst);
        emit(c)
    }).unwrap().join();
    let _ = std::fs::remove_dir_all(&scratch);
    match r { Ok(s) => println!("RESULT {s}"), Err(_) => { println!("ABORT driver panicked"); std::process::exit(98) } }
}
