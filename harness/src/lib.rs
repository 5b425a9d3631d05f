//! Shared helpers of the harnesses, and their entry point.
pub mod common;
pub use common::*;

pub type Entry = (&'static str, extern "C-unwind" fn(u64));

pub mod runner {
    /// Symbolic build: keeps the entries alive; replay build: runs one of them.
    pub fn run(entries: &[super::Entry]) { super::replay::main(entries) }
}

#[cfg(not(panic = "unwind"))]
pub mod replay {
    pub fn main(entries: &[super::Entry]) { for e in entries { (e.1)(0) } }
}

#[cfg(panic = "unwind")]
pub mod replay {
    use std::{cell::RefCell, collections::HashMap, panic, time::{Duration, Instant}};
    thread_local! { static LOC: RefCell<String> = const { RefCell::new(String::new()) }; }
    /// `bin ENTRY ARG INPUTS VIOLATION-ID SECONDS`: looks for the violation with the solver's
    /// inputs, the real cryptography, and fresh keys and hash seeds each time.
    pub fn main(entries: &[super::Entry]) {
        let a: Vec<String> = std::env::args().collect();
        let e = entries.iter().find(|e| e.0 == a[1]).expect("entry");
        let arg: u64 = a[2].parse().unwrap();
        let text = std::fs::read_to_string(&a[3]).unwrap();
        let inputs: HashMap<String, u64> = text.lines().filter_map(|l| l.rsplit_once('=')).map(|(k, v)| (k.to_string(), v.parse().unwrap())).collect();
        let want = a[4].as_str();
        let end = Instant::now() + Duration::from_secs(a[5].parse().unwrap());
        panic::set_hook(Box::new(|i| LOC.with(|l| *l.borrow_mut() = i.location().map(|x| format!("{}:{} {}", x.file(), x.line(), i)).unwrap_or_else(|| "?".into()))));
        let mut n = 0u64;
        let mut other = HashMap::<String, u64>::new();
        while Instant::now() < end {
            n += 1;
            ksym::begin(&inputs);
            LOC.with(|l| l.borrow_mut().clear());
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (e.1)(arg)));
            let fails = ksym::fails();
            let panicked = match &r { Err(p) if !p.is::<ksym::Pruned>() => Some(LOC.with(|l| l.borrow().clone())), _ => None };
            let hit = match want.strip_prefix("assert:") { Some(id) => fails.iter().any(|f| f == id), None => panicked.is_some() };
            if hit { println!("REPRODUCED run={n} {}", panicked.unwrap_or_else(|| want.to_string()).replace('\n', " ")); std::process::exit(1); }
            for f in fails { *other.entry(f).or_insert(0) += 1; }
            if let Some(p) = panicked { *other.entry(p).or_insert(0) += 1; }
        }
        println!("NOT-REPRODUCED runs={n} other={other:?}");
    }
}

/// Declares the entries of a harness program.
#[macro_export]
macro_rules! entries { ($($f:ident),* $(,)?) => { fn main() { harness::runner::run(&[$((stringify!($f), $f as extern "C-unwind" fn(u64))),*]) } } }
