//! Harness-side interface to the symbolic executor.
//!
//! Built plainly, the functions are undefined externals the executor models; built with
//! `native`, they replay one concrete assignment (a counterexample) against the real code.

#[cfg(not(feature = "native"))]
mod back {
    extern "C" {
        fn ksym_sym(p: *const u8, n: usize, w: u32) -> u64;
        fn ksym_choice(p: *const u8, n: usize, lim: u64) -> u64;
        fn ksym_assume(c: bool);
        fn ksym_assert(c: bool, p: *const u8, n: usize);
        fn ksym_cover(p: *const u8, n: usize);
        fn ksym_note(p: *const u8, n: usize);
        fn ksym_seed(s: u64);
        fn ksym_ranks(on: bool);
        fn ksym_concretize(v: u64) -> u64;
    }
    pub fn sym(n: &str, w: u32) -> u64 { unsafe { ksym_sym(n.as_ptr(), n.len(), w) } }
    pub fn choice(n: &str, lim: u64) -> u64 { unsafe { ksym_choice(n.as_ptr(), n.len(), lim) } }
    pub fn assume(c: bool) { unsafe { ksym_assume(c) } }
    pub fn check(c: bool, id: &str) { unsafe { ksym_assert(c, id.as_ptr(), id.len()) } }
    pub fn cover(id: &str) { unsafe { ksym_cover(id.as_ptr(), id.len()) } }
    pub fn note(id: &str) { unsafe { ksym_note(id.as_ptr(), id.len()) } }
    pub fn seed(s: u64) { unsafe { ksym_seed(s) } }
    pub fn ranks(on: bool) { unsafe { ksym_ranks(on) } }
    pub fn concretize(v: u64) -> u64 { unsafe { ksym_concretize(v) } }
}

#[cfg(feature = "native")]
mod back {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        static IN: RefCell<HashMap<String, u64>> = RefCell::new(HashMap::new());
        static OCC: RefCell<HashMap<String, u32>> = RefCell::new(HashMap::new());
        static FAILS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    }
    pub struct Pruned;
    /// Loads the assignment and clears the per-run state.
    pub fn begin(inputs: &HashMap<String, u64>) {
        IN.with(|i| *i.borrow_mut() = inputs.clone());
        OCC.with(|o| o.borrow_mut().clear());
        FAILS.with(|f| f.borrow_mut().clear());
    }
    pub fn fails() -> Vec<String> { FAILS.with(|f| f.borrow().clone()) }
    fn next(n: &str) -> u64 {
        let k = OCC.with(|o| { let mut o = o.borrow_mut(); let c = o.entry(n.to_string()).or_insert(0); *c += 1; *c - 1 });
        IN.with(|i| i.borrow().get(&format!("{n}#{k}")).copied().unwrap_or(0))
    }
    pub fn sym(n: &str, w: u32) -> u64 { let v = next(n); if w >= 64 { v } else { v & ((1 << w) - 1) } }
    pub fn choice(n: &str, lim: u64) -> u64 {
        if lim == 0 { std::panic::resume_unwind(Box::new(Pruned)); }
        // matches the executor, where a choice with one alternative consumes no input
        if lim == 1 { return 0; }
        let v = next(n);
        if v < lim { v } else { std::panic::resume_unwind(Box::new(Pruned)) }
    }
    pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(Pruned)); } }
    pub fn check(c: bool, id: &str) { if !c { FAILS.with(|f| f.borrow_mut().push(id.to_string())); } }
    pub fn cover(_: &str) {}
    pub fn note(s: &str) { if std::env::var("KSYM_NOTES").is_ok() { println!("note: {s}"); } }
    pub fn seed(_: u64) {}
    pub fn ranks(_: bool) {}
    pub fn concretize(v: u64) -> u64 { v }
}

pub use back::*;
/// Whether this is the replay build.
pub const NATIVE: bool = cfg!(feature = "native");

#[no_mangle]
pub static KSYM_XOF: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
/// Makes extendable hash output symbolic (replay: the real one, retried).
pub fn any_xof(on: bool) { KSYM_XOF.store(if on { 17 } else { 0 }, core::sync::atomic::Ordering::Relaxed) }

/// A symbolic byte.
pub fn byte(n: &str) -> u8 { sym(n, 8) as u8 }
/// `k` symbolic bytes.
pub fn bytes(n: &str, k: usize) -> Vec<u8> { (0..k).map(|_| byte(n)).collect() }
pub fn bytes32(n: &str) -> [u8; 32] { let mut o = [0; 32]; for b in o.iter_mut() { *b = byte(n); } o }
/// A symbolic boolean, split into both cases.
pub fn flag(n: &str) -> bool { choice(n, 2) == 1 }
pub fn pick<'a, T>(n: &str, xs: &'a [T]) -> &'a T { &xs[choice(n, xs.len() as u64) as usize] }
/// Every permutation of `xs`, by choice.
pub fn permute<T>(n: &str, mut xs: Vec<T>) -> Vec<T> {
    let mut out = Vec::with_capacity(xs.len());
    while !xs.is_empty() { let i = choice(n, xs.len() as u64) as usize; out.push(xs.remove(i)); }
    out
}

/// Runs a future that never really waits (single-threaded, uncontended locks).
pub fn block_on<F: core::future::Future>(f: F) -> F::Output {
    use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    // SAFETY: the vtable's functions ignore their argument.
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    let mut n = 0;
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        n += 1;
        if n > 64 { check(false, "deadlock: future never completes"); panic!("future never completes"); }
    }
}

/// Runs two tasks at once on one thread, `second` from wherever `hook` first puts the first one off (or from where
/// that one has to wait). Returns false if neither can go on.
pub fn race(first: impl core::future::Future<Output = ()>, second: impl core::future::Future<Output = ()>) -> bool {
    use std::{sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc}, task::{Context, Poll, Wake}};
    struct W(AtomicBool);
    impl Wake for W { fn wake(self: Arc<Self>) { self.0.store(true, SeqCst); } }
    let ws = [Arc::new(W(AtomicBool::new(true))), Arc::new(W(AtomicBool::new(true)))];
    let (mut first, mut second) = (Some(Box::pin(first)), Some(Box::pin(second)));
    let mut now = 0;
    while first.is_some() || second.is_some() {
        if ws[now].0.swap(false, SeqCst) {
            let waker = ws[now].clone().into();
            let mut cx = Context::from_waker(&waker);
            if now == 0 { if let Some(f) = first.as_mut() { if let Poll::Ready(()) = f.as_mut().poll(&mut cx) { first = None; } } }
            else if let Some(f) = second.as_mut() { if let Poll::Ready(()) = f.as_mut().poll(&mut cx) { second = None; } }
        } else if !ws[1 - now].0.load(SeqCst) || (if now == 0 { second.is_none() } else { first.is_none() }) { core::mem::forget((first, second)); return false; }
        now = 1 - now;
    }
    true
}
