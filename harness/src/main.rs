//! Drives the vcard4 library and records what it does.
//!
//!   vh run PROP SEED LIMIT OUT     record runs for a property
//!   vh replay CASES MODE SHARD OF TRACE EVERY OUT
//!                                  run cases produced by the model checker; in modes encode and
//!                                  fold, write one encoding out of EVERY to TRACE
//!   vh one PROP RECORD             run the input of one record again
//!   vh docs SEED N OUT             documents for the feature comparison
//!   vh outcomes DOCS OUT           what this build makes of them
mod alloc;
mod build;
mod cards;
mod docs;
mod make;
mod observe;
mod props;
mod replay;
mod repr;
mod rng;

use props::Sink;
use std::io::{BufWriter, Write};
use std::sync::atomic::Ordering::SeqCst;

#[global_allocator]
static A: alloc::Scan = alloc::Scan;

/// One run may take this long before it counts as endless.
const PATIENCE_MS: u64 = 20_000;

fn watchdog(out: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let since = observe::BUSY_SINCE.load(SeqCst);
        if since != 0 && observe::now_ms().saturating_sub(since) > PATIENCE_MS {
            let cur = observe::CURRENT.lock().map(|c| observe::current(&c)).unwrap_or_default();
            let _ = std::fs::write(format!("{}.hang", out), cur);
            std::process::exit(86);
        }
    });
}

/// When asked to, keep the input of the run under way in a file, so that it is
/// known when the process is killed by it.
fn note_current(out: &str) {
    if std::env::var_os("VH_CURRENT").is_some() {
        *observe::CURRENT_FILE.lock().unwrap() = Some(format!("{}.current", out).into());
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = move |i: usize| -> String { a.get(i).cloned().unwrap_or_default() };
    observe::quiet_panics();
    let body = move || match arg(0).as_str() {
        "run" => {
            let (seed, limit) = (arg(2).parse::<u64>().unwrap(), arg(3).parse::<usize>().unwrap());
            watchdog(arg(4));
            note_current(&arg(4));
            let mut f = BufWriter::new(std::fs::File::create(arg(4)).unwrap());
            let mut k = Sink { out: &mut f, written: 0, ran: 0, limit };
            let mut h = 0u64;
            for b in arg(1).bytes() {
                h = h * 131 + b as u64;
            }
            let mut r = rng::Rng::new(seed ^ (h << 20));
            match arg(1).as_str() {
                "C01" => props::c01(&mut r, &mut k),
                "C02" => props::c02(&mut r, &mut k),
                "C03" => props::c03(&mut r, &mut k),
                "C04" => props::c04(&mut r, &mut k),
                "C05" => props::c05(&mut r, &mut k),
                "C06" => props::c06(&mut r, &mut k),
                "C07" => props::c07(&mut r, &mut k),
                "C08" => props::c08(&mut r, &mut k),
                "C09" => props::c09(&mut r, &mut k),
                "C10" => props::c10(&mut r, &mut k),
                "C11" => props::c11(&mut r, &mut k),
                "C12" => props::c12(&mut r, &mut k),
                "C13" => props::c13(&mut r, &mut k),
                "C14" => props::c14(&mut r, &mut k),
                "C15" => props::c15(&mut r, &mut k),
                "C16" => props::c16(&mut r, &mut k),
                "C17" => props::c17(&mut r, &mut k),
                "C18" => props::c18(&mut r, &mut k),
                "C19" => build::c19(&mut r, &mut k),
                "C20" => props::c20(&mut r, &mut k),
                "C22" => props::c22(&mut r, &mut k),
                "C23" => props::c23(&mut r, &mut k),
                "C24" => props::c24(&mut r, &mut k),
                p => panic!("no recorder for {}", p),
            }
            let (ran, written) = (k.ran, k.written);
            f.flush().unwrap();
            let _ = std::fs::remove_file(format!("{}.current", arg(4)));
            println!("{{\"ran\":{},\"written\":{}}}", ran, written);
        }
        "replay" => {
            let num = |i: usize| arg(i).parse::<usize>().unwrap();
            watchdog(arg(7));
            note_current(&arg(7));
            let mut f = BufWriter::new(std::fs::File::create(arg(7)).unwrap());
            let mut tr = if arg(5) == "-" { None } else { Some(BufWriter::new(std::fs::File::create(arg(5)).unwrap())) };
            let s = replay::replay(&arg(1), &arg(2), &mut f, tr.as_mut().map(|t| t as &mut dyn Write), num(6).max(1), num(3), num(4));
            if let Some(t) = tr.as_mut() { t.flush().unwrap() }
            f.flush().unwrap();
            let _ = std::fs::remove_file(format!("{}.current", arg(7)));
            println!("{{\"ran\":{},\"written\":{},\"decided\":{}}}", s.ran, s.written, s.decided);
        }
        "docs" => {
            let mut r = rng::Rng::new(arg(1).parse::<u64>().unwrap() ^ 0xC21);
            let mut f = BufWriter::new(std::fs::File::create(arg(3)).unwrap());
            for (s, strict) in props::c21_docs(&mut r, arg(2).parse().unwrap()) {
                writeln!(f, "{}", serde_json::json!({"in": repr::t(&s), "strict": strict})).unwrap();
            }
        }
        "outcomes" => {
            watchdog(arg(2));
            note_current(&arg(2));
            let mut f = BufWriter::new(std::fs::File::create(arg(2)).unwrap());
            for l in std::fs::read_to_string(arg(1)).unwrap().lines() {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                let o = props::c21_one(&repr::untext(&v["in"]), v["strict"] == true);
                writeln!(f, "{}", o).unwrap();
            }
            let _ = std::fs::remove_file(format!("{}.current", arg(2)));
        }
        _ => {
            eprintln!("usage: see main.rs");
            std::process::exit(2);
        }
    };
    // deep recursion should show as what it is, not depend on the main thread
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(body_wrap(body)).unwrap();
    if t.join().is_err() {
        eprintln!("harness panicked: {}", observe::last_panic());
        std::process::exit(2);
    }
}
fn body_wrap<F: FnOnce() + Send + 'static>(f: F) -> impl FnOnce() + Send + 'static {
    move || {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
            eprintln!("harness panicked: {}", observe::last_panic());
            std::process::exit(2);
        }
    }
}
