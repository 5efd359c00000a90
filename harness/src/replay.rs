//! replay NAME HEXVALS...        run one contract on given values (a counterexample)
//! replay --random SEED ITERS [NAME...]   run contracts on generated values
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    native::main()
}
#[cfg(not(kani))]
mod native {
use deku_contracts::{kani as rt, REGISTRY};
use std::panic;
fn run(f: fn()) -> Result<bool, String> {
    match panic::catch_unwind(f) {
        Ok(()) => Ok(true),
        Err(e) => {
            if e.downcast_ref::<rt::Vacuous>().is_some() {
                return Ok(false);
            }
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(m)
        }
    }
}
fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = i.location().map(|l| l.to_string()).unwrap_or_default();
    }));
    if a[0] == "--list" {
        for (g, r) in REGISTRY { for (n, _, _) in r.iter() { println!("{g}::{n}"); } }
        return;
    }
    if a[0] == "--random" {
        let seed: u64 = a[1].parse().unwrap();
        let iters: u64 = a[2].parse().unwrap();
        let mut bad = 0;
        let (mut runs, mut real) = (0u64, 0u64);
        for (g, r) in REGISTRY {
            for (n, f, native) in r.iter() {
                let full = format!("{g}::{n}");
                if a.len() > 3 && !a[3..].contains(&full) { continue; }
                let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
                for _ in 0..if *native { 40 * iters } else { iters } {
                    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    rt::set(rt::Feed::Random(s | 1));
                    runs += 1;
                    match run(*f) {
                        Ok(true) => real += 1,
                        Ok(false) => {}
                        Err(m) => {
                            let v: Vec<String> = rt::log().iter().map(|x| hex(x)).collect();
                            println!("FAIL {full} values={} at={} msg={m:?}", v.join(","), loc.lock().unwrap());
                            bad += 1;
                            break;
                        }
                    }
                }
            }
        }
        println!("RANDOM runs={runs} nonvacuous={real} failing={bad}");
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    let vals: Vec<Vec<u8>> = a[1..].iter().map(|h| {
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
    }).collect();
    for (g, r) in REGISTRY {
        for (n, f, _) in r.iter() {
            if format!("{g}::{n}") == a[0] {
                rt::set(rt::Feed::Replay(vals, 0));
                match run(*f) {
                    Ok(true) => { println!("HOLDS {}", a[0]); return; }
                    Ok(false) => { println!("VACUOUS {}", a[0]); std::process::exit(3); }
                    Err(m) => { println!("FAIL {} at={} msg={m:?}", a[0], loc.lock().unwrap()); std::process::exit(1); }
                }
            }
        }
    }
    eprintln!("no such contract");
    std::process::exit(4);
}
}
