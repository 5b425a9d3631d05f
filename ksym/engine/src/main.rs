//! ksym: bounded symbolic execution of rustc bitcode, deciding harness assertions with z3.
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn signal(s: i32, h: usize) -> usize;
    fn kill(p: i32, s: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o
}

/// Demangled name without crate hashes and generic arguments.
fn nice(s: &str) -> String {
    let Some(d) = llvm::Api::demangle(s) else { return s.to_string() };
    let mut o = String::new();
    let (mut gen, mut skip) = (0i32, false);
    let b: Vec<char> = d.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '[' && gen == 0 && i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_') { skip = true; }
        if !skip {
            if c == '<' && i >= 2 && b[i - 1] == ':' { gen += 1; }
            else if gen > 0 { if c == '<' { gen += 1; } else if c == '>' { gen -= 1; } }
            else { o.push(c); }
        } else if c == ']' { skip = false; }
        i += 1;
    }
    while o.ends_with("::") { o.truncate(o.len() - 2); }
    o.replace("::::", "::")
}

#[derive(Default)]
struct Out {
    num: BTreeMap<String, f64>,
    maps: BTreeMap<(String, String), u64>,
    viols: BTreeMap<String, (Vec<(String, u128)>, Vec<String>, Vec<String>)>,
    funcs: std::collections::BTreeSet<String>,
}
impl Out {
    fn add(&mut self, k: &str, v: f64) { *self.num.entry(k.into()).or_insert(0.0) += v; }
    fn from(ex: &Exec) -> Out {
        let mut o = Out::default();
        let s = &ex.stats;
        o.add("paths", s.paths as f64); o.add("pruned", s.pruned as f64); o.add("instrs", s.instrs as f64); o.add("forks", s.forks as f64);
        o.add("queries", ex.solver.queries as f64); o.add("cache_hits", ex.solver.cache_hits as f64); o.add("sat", ex.solver.sat as f64); o.add("unsat", ex.solver.unsat as f64); o.add("unknown", ex.solver.unknown as f64);
        o.add("solver_s", ex.solver.time); o.add("timeouts", s.timeouts as f64);
        o.num.insert("max_depth".into(), s.max_depth as f64);
        for (n, m) in [("errors", &s.errors), ("covers", &s.covers), ("asserts", &s.asserts), ("viol_counts", &s.viol_counts)] { for (k, v) in m { *o.maps.entry((n.into(), k.clone())).or_insert(0) += v; } }
        for (k, v) in &s.viols { o.viols.insert(k.clone(), (v.inputs.clone(), v.stack.clone(), v.notes.clone())); }
        for n in ex.m.lowered_names() { o.funcs.insert(n.to_string()); }
        o
    }
    fn merge(&mut self, b: Out) {
        for (k, v) in b.num { if k == "max_depth" { let e = self.num.entry(k).or_insert(0.0); *e = e.max(v); } else { self.add(&k, v); } }
        for (k, v) in b.maps { *self.maps.entry(k).or_insert(0) += v; }
        for (k, v) in b.viols { self.viols.entry(k).or_insert(v); }
        self.funcs.extend(b.funcs);
    }
    fn ser(&self) -> String {
        let mut s = String::new();
        let j = |v: &Vec<String>| v.iter().map(|x| x.replace(['\t', '\n', '\x1f'], " ")).collect::<Vec<_>>().join("\x1f");
        for (k, v) in &self.num { let _ = writeln!(s, "N\t{k}\t{v}"); }
        for ((a, b), v) in &self.maps { let _ = writeln!(s, "M\t{a}\t{}\t{v}", b.replace(['\t', '\n'], " ")); }
        for (k, (i, st, no)) in &self.viols { let _ = writeln!(s, "V\t{}\t{}\t{}\t{}", k.replace(['\t', '\n'], " "), i.iter().map(|(n, x)| format!("{n}={x}")).collect::<Vec<_>>().join("\x1f"), j(st), j(no)); }
        for f in &self.funcs { let _ = writeln!(s, "F\t{f}"); }
        s
    }
    fn de(t: &str) -> Out {
        let mut o = Out::default();
        let sp = |s: &str| if s.is_empty() { vec![] } else { s.split('\x1f').map(String::from).collect::<Vec<_>>() };
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "N" => { o.num.insert(p[1].into(), p[2].parse().unwrap_or(0.0)); }
                "M" => { o.maps.insert((p[1].into(), p[2].into()), p[3].parse().unwrap_or(0)); }
                "V" => { let ins = sp(p[2]).iter().map(|x| { let (a, b) = x.rsplit_once('=').unwrap(); (a.to_string(), b.parse().unwrap()) }).collect(); o.viols.insert(p[1].into(), (ins, sp(p[3]), sp(p[4]))); }
                "F" => { o.funcs.insert(p[1].into()); }
                _ => {}
            }
        }
        o
    }
    fn json(&self, entry: &str, wall: f64, nfun: usize) -> String {
        let mut s = String::from("{\n");
        let _ = writeln!(s, "  \"entry\": \"{}\",", esc(entry));
        let _ = writeln!(s, "  \"wall_s\": {wall:.3},");
        let _ = writeln!(s, "  \"module_functions\": {nfun},");
        for (k, v) in &self.num { let _ = writeln!(s, "  \"{k}\": {},", if v.fract() == 0.0 { format!("{}", *v as i64) } else { format!("{v:.3}") }); }
        for n in ["errors", "covers", "asserts", "viol_counts"] {
            let m: Vec<String> = self.maps.iter().filter(|((a, _), _)| a == n).map(|((_, b), v)| format!("\"{}\": {v}", esc(&if n == "errors" { match b.rsplit_once(" @ ") { Some((x, y)) => format!("{x} @ {}", nice(y)), None => b.clone() } } else { b.clone() }))).collect();
            let _ = writeln!(s, "  \"{n}\": {{{}}},", m.join(", "));
        }
        let v: Vec<String> = self.viols.iter().map(|(k, (i, st, no))| format!("{{\"id\": \"{}\", \"inputs\": {{{}}}, \"stack\": [{}], \"notes\": [{}]}}", esc(k),
            i.iter().map(|(n, x)| format!("\"{}\": {x}", esc(n))).collect::<Vec<_>>().join(", "), st.iter().map(|f| format!("\"{}\"", esc(&nice(f)))).collect::<Vec<_>>().join(", "), no.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(", "))).collect();
        let _ = writeln!(s, "  \"violations\": [{}],", v.join(",\n    "));
        let mut f: Vec<String> = self.funcs.iter().map(|f| nice(f)).filter(|f| (f.contains("keyhive") || f.contains("beekem")) && !f.contains("core::ptr::drop_in_place") && !f.contains("drop_slow")).collect();
        f.sort(); f.dedup();
        let _ = writeln!(s, "  \"functions_executed\": {},", self.funcs.len());
        let _ = writeln!(s, "  \"functions\": [{}]\n}}", f.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", "));
        s
    }
}

fn main() {
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(th.join().unwrap_or(3));
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let llvm = opt("--llvm").expect("--llvm");
    let bc = opt("--bc").expect("--bc");
    let entry = opt("--entry").expect("--entry");
    let args: Vec<u64> = opt("--args").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let jobs: usize = opt("--jobs").map_or(8, |s| s.parse().unwrap());
    let time: u64 = opt("--time").map_or(600, |s| s.parse().unwrap());
    let maxi: u64 = opt("--max-instrs").map_or(2_000_000_000, |s| s.parse().unwrap());
    let out = opt("--out");
    let t0 = Instant::now();
    let m = match ir::Module::load(&llvm, &bc) { Ok(m) => m, Err(e) => { eprintln!("ksym: {e}"); return 3; } };
    let nfun = m.fnames.len();
    let load = t0.elapsed().as_secs_f64();
    let mut ex = Exec::new(m, t0 + Duration::from_secs(time), maxi);
    let st = match ex.initial(&entry, &args) { Ok(s) => s, Err(e) => { eprintln!("ksym: {e}"); return 3; } };
    ex.work.push_back(st);
    let progress = std::env::var("KSYM_PROGRESS").is_ok();
    let mut last = Instant::now();
    // SAFETY: a zero-filled shared mapping of plain atomics.
    let ctl = unsafe { signal(17, 1); &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), 3, 0x21, -1, 0) as *const Ctl) };
    ctl.active.store(1, SeqCst);
    ctl.next.store(1, SeqCst);
    if jobs > 1 { ex.share = Some(Share { ctl, jobs, slot: 0, base: [0.0; 6] }); }
    let dir = std::env::temp_dir().join(format!("ksym-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    while let Some(s) = ex.work.pop_back() {
        if Instant::now() > ex.deadline { ex.stats.timeouts += 1 + ex.work.len() as u64; ex.work.clear(); break; }
        ex.run_one(s);
        if ex.work.len() > 1 { ex.hand_over(); }
        if progress && last.elapsed().as_secs() >= 2 && ex.share.as_ref().is_none_or(|s| s.slot == 0) { last = Instant::now(); eprintln!("[{:.0}s] paths {} forks {} work {} instrs {}M q {} st {:.1}s", t0.elapsed().as_secs_f64(), ex.stats.paths, ex.stats.forks, ex.work.len(), ex.stats.instrs / 1_000_000, ex.solver.queries, ex.solver.time); }
    }
    if let Some(sh) = ex.share.as_ref().filter(|s| s.slot != 0) {
        let mut o = Out::from(&ex);
        for (k, v) in ["queries", "cache_hits", "sat", "unsat", "unknown", "solver_s"].iter().zip(sh.base) { o.add(k, -v); }
        let _ = std::fs::write(dir.join(format!("{}", sh.slot)), o.ser());
        ctl.done[sh.slot].store(1, SeqCst);
        ctl.active.fetch_sub(1, SeqCst);
        unsafe { _exit(0) }
    }
    ctl.active.fetch_sub(1, SeqCst);
    let mut total = Out::from(&ex);
    let mut dead = 0u64;
    while ctl.active.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        if last.elapsed().as_secs() < 2 { continue; }
        last = Instant::now();
        for i in 1..ctl.next.load(SeqCst).min(SLOTS) {
            let p = ctl.pid[i].load(SeqCst);
            if p == 0 || ctl.done[i].load(SeqCst) != 0 || unsafe { kill(p, 0) } == 0 { continue; }
            if ctl.done[i].swap(1, SeqCst) == 0 { dead += 1; ctl.active.fetch_sub(1, SeqCst); }
        }
        if Instant::now() > ex.deadline + Duration::from_secs(30) { dead += 1; break; }
    }
    for i in 1..ctl.next.load(SeqCst).min(SLOTS) { if let Ok(t) = std::fs::read_to_string(dir.join(format!("{i}"))) { total.merge(Out::de(&t)); } }
    let _ = std::fs::remove_dir_all(&dir);
    if dead > 0 { *total.maps.entry(("errors".into(), "shard died".into())).or_insert(0) += dead; }
    total.num.insert("load_s".into(), load);
    let js = total.json(&entry, t0.elapsed().as_secs_f64(), nfun);
    match out { Some(p) => { let mut f = std::fs::File::create(p).unwrap(); f.write_all(js.as_bytes()).unwrap(); } None => println!("{js}") }
    let errs = total.maps.keys().any(|(n, _)| n == "errors") || total.num.get("timeouts").copied().unwrap_or(0.0) > 0.0;
    if !total.viols.is_empty() { 1 } else if errs { 2 } else { 0 }
}
