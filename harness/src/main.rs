#![allow(clippy::all)]
mod sym;
mod hist;
mod keys;
mod login;
mod conv;
mod cut;
mod exec;
mod wild;
mod migr;
mod models;
mod mock;
mod values;
mod waits;
mod conn;
mod pools;
mod rows;

macro_rules! table {
    ($($m:ident :: $n:ident),* $(,)?) => {
        pub static HARNESSES: &[(&str, fn())] = &[$((stringify!($n), $m::$n)),*];
    };
}

include!("table.rs");

#[cfg(not(feature = "replay"))]
fn main() {
    let i = std::env::args().count();
    HARNESSES[i].1();
}

#[cfg(feature = "replay")]
fn main() {
    replay::main()
}

#[cfg(feature = "replay")]
mod replay {
    use super::sym::raw::{Stop, ST};
    use std::io::BufRead;

    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }

    /// Each input line: `harness param,param,... inputhex`. Each output line (tab separated):
    /// outcome, observed bytes, covers, message.
    pub fn main() {
        let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let l2 = loc.clone();
        std::panic::set_hook(Box::new(move |i| {
            let m = i.payload().downcast_ref::<&str>().map(|x| x.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            *l2.lock().unwrap() = format!("{m} at {at}").replace(['\n', '\t'], " ");
        }));
        for line in std::io::stdin().lock().lines() {
            let line = line.unwrap();
            let mut it = line.split(' ');
            let name = it.next().unwrap().to_string();
            let params: Vec<u64> = it.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let input = unhex(it.next().unwrap_or(""));
            let f = super::HARNESSES.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("no harness {name}")).1;
            ST.with(|s| {
                let mut s = s.borrow_mut();
                s.input = input;
                s.pos = 0;
                s.params = params;
                s.observed.clear();
                s.covers.clear();
                s.fails.clear();
                s.infeasible = false;
            });
            loc.lock().unwrap().clear();
            super::sym::raw::EXPECT.store(false, std::sync::atomic::Ordering::Relaxed);
            super::sym::raw::LIMIT.store(0, std::sync::atomic::Ordering::Relaxed);
            super::sym::raw::OVER.store(0, std::sync::atomic::Ordering::Relaxed);
            let g: fn() = f;
            let r = std::panic::catch_unwind(move || super::run(g));
            let (mut outcome, mut msg) = match r {
                Ok(()) => ("ok", String::new()),
                Err(e) if e.is::<Stop>() => ("stop", String::new()),
                Err(_) if super::sym::raw::EXPECT.load(std::sync::atomic::Ordering::Relaxed) => ("ok", String::new()),
                Err(_) => ("panic", loc.lock().unwrap().clone()),
            };
            super::sym::raw::LIMIT.store(0, std::sync::atomic::Ordering::Relaxed);
            ST.with(|s| {
                let s = s.borrow();
                if super::sym::raw::OVER.load(std::sync::atomic::Ordering::Relaxed) > 0 {
                    outcome = "assert";
                    msg = "memory out of proportion is allocated".into();
                }
                if s.infeasible {
                    outcome = "infeasible";
                }
                if !s.fails.is_empty() {
                    outcome = "assert";
                    msg = s.fails.join("; ");
                }
                println!("{outcome}\t{}\t{}\t{}", hex(&s.observed), s.covers.join(","), msg);
            });
        }
    }
}

#[cfg(feature = "replay")]
fn run(f: fn()) {
    mock::reset();
    f()
}
