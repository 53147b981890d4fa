//! Replays a verifier counterexample against the real crate, or searches for a failing input.
//!   replay list
//!   replay run <harness> <file: one value per line, bytes separated by spaces>
//!   replay search <harness> <seed> <seconds>
//! Exit code 0: the obligation held; 10: it failed; 20: input rejected by the precondition.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    use mdarray_contracts::nd::{Entry, Mode, Rejected, Returned, SRC};
    use std::panic::{AssertUnwindSafe, catch_unwind, set_hook};
    use std::sync::Mutex;

    static MSG: Mutex<String> = Mutex::new(String::new());

    #[derive(PartialEq)]
    enum Outcome {
        Pass,
        Fail,
        Rejected,
    }

    fn once(e: &Entry) -> Outcome {
        match catch_unwind(AssertUnwindSafe(e.f)) {
            Ok(()) => {
                if e.mode == Mode::Panics {
                    Outcome::Fail
                } else {
                    Outcome::Pass
                }
            }
            Err(p) => {
                if p.is::<Rejected>() {
                    Outcome::Rejected
                } else if p.is::<Returned>() {
                    *MSG.lock().unwrap() = "the call returned although it must panic, or with a wrong result".into();
                    Outcome::Fail
                } else if e.mode != Mode::Holds {
                    Outcome::Pass
                } else {
                    Outcome::Fail
                }
            }
        }
    }

    let args: Vec<String> = std::env::args().collect();
    let table = mdarray_contracts::all();
    if args[1] == "list" {
        for e in &table {
            println!("{} {:?}", e.name.trim_start_matches("mdarray_contracts::"), e.mode);
        }
        return;
    }
    let e = *table
        .iter()
        .find(|e| e.name.trim_start_matches("mdarray_contracts::") == args[2])
        .unwrap_or_else(|| panic!("unknown harness {}", args[2]));
    set_hook(Box::new(|i| {
        if !i.payload().is::<Rejected>() && !i.payload().is::<Returned>() {
            *MSG.lock().unwrap() = i.to_string().replace('\n', " ");
        }
    }));
    let show = |log: &Vec<Vec<u8>>| {
        for v in log {
            let b: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            let mut n = [0u8; 8];
            n[..v.len()].copy_from_slice(v);
            println!("input: {}  # {}", b.join(" "), i64::from_le_bytes(n));
        }
    };
    match args[1].as_str() {
        "run" => {
            let text = std::fs::read_to_string(&args[3]).expect("values file");
            SRC.with(|s| {
                s.borrow_mut().vals = text
                    .lines()
                    .map(|l| l.split('#').next().unwrap().trim())
                    .filter(|l| !l.is_empty())
                    .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
                    .collect()
            });
            let o = once(&e);
            SRC.with(|s| show(&s.borrow().log));
            match o {
                Outcome::Pass => println!("HELD"),
                Outcome::Fail => {
                    println!("FAILED: {}", MSG.lock().unwrap());
                    std::process::exit(10)
                }
                Outcome::Rejected => {
                    println!("REJECTED");
                    std::process::exit(20)
                }
            }
        }
        "search" => {
            let seed: u64 = args[3].parse().unwrap();
            let secs: f64 = args[4].parse().unwrap();
            let start = std::time::Instant::now();
            let (mut tried, mut ok) = (0u64, 0u64);
            let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
            while start.elapsed().as_secs_f64() < secs {
                SRC.with(|s| {
                    let mut s = s.borrow_mut();
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    s.rng = Some(x);
                    s.log.clear();
                });
                tried += 1;
                match once(&e) {
                    Outcome::Pass => ok += 1,
                    Outcome::Rejected => (),
                    Outcome::Fail => {
                        SRC.with(|s| show(&s.borrow().log));
                        println!("FAILED: {}", MSG.lock().unwrap());
                        std::process::exit(10)
                    }
                }
                if tried >= 200 && SRC.with(|s| s.borrow().log.is_empty()) {
                    break; // no symbolic input: one run decides
                }
            }
            println!("HELD tried={tried} accepted={ok}");
        }
        m => panic!("unknown mode {m}"),
    }
}
