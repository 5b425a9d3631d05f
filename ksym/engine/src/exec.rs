//! Symbolic interpreter: explores every feasible path of a harness entry point.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

const STACK_BASE: u64 = 0x1000_0000;
const STACK_END: u64 = 0x1800_0000;
const HEAP_BASE: u64 = 0x1800_0000;

#[derive(Clone)]
struct Frame { f: Rc<Func>, pc: u32, base: u32, sp: u64 }

pub struct HEntry { content: Vec<(u8, E)>, out: [u8; 32] }

#[derive(Clone)]
pub struct State {
    mem: Mem,
    regs: Vec<V>,
    frames: Vec<Frame>,
    f: Rc<Func>,
    pc: u32,
    base: u32,
    sp: u64,
    brk: u64,
    free: [u64; 96],
    cons: Vec<E>,
    implied: Vec<E>,
    model: Rc<Model>,
    hash_c: Rc<Vec<Rc<HEntry>>>,
    hash_s: Rc<Vec<Rc<HEntry>>>,
    names: Rc<HashMap<String, u32>>,
    inputs: Rc<Vec<(String, u16, V)>>,
    notes: Rc<Vec<String>>,
    rng: u64,
    seed: u64,
    ranks: bool,
    symhash: u32,
    instrs: u64,
    forks: u32,
}

pub enum Stop { Done, Assume, Violation(String), Error(String), Handed }
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Viol { pub id: String, pub inputs: Vec<(String, u128)>, pub stack: Vec<String>, pub notes: Vec<String> }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub pruned: u64, pub instrs: u64, pub forks: u64, pub errors: BTreeMap<String, u64>, pub viols: BTreeMap<String, Viol>, pub viol_counts: BTreeMap<String, u64>, pub covers: BTreeMap<String, u64>, pub asserts: BTreeMap<String, u64>, pub max_depth: u32, pub timeouts: u64 }

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub solver: Solver,
    pub work: VecDeque<State>,
    pub stats: Stats,
    vars: HashMap<(String, u16), E>,
    ids: HashSet<[u8; 32]>,
    rankv: HashMap<[u8; 32], E>,
    pub deadline: Instant,
    pub max_instrs: u64,
    pub trace: bool,
    pub max_viol_per_id: u64,
    pub prof: HashMap<u32, u64>,
    pub share: Option<Share>,
}

fn prf(tag: u64, data: &[u8]) -> [u8; 32] {
    // four independently keyed 64-bit multiply-xorshift lanes: collision-free in practice for interning
    let mut l = [0x9E3779B97F4A7C15u64 ^ tag, 0xC2B2AE3D27D4EB4F ^ tag.rotate_left(17), 0x165667B19E3779F9 ^ tag.rotate_left(34), 0x27D4EB2F165667C5 ^ tag.rotate_left(51)];
    let mul = [0xff51afd7ed558ccdu64, 0xc4ceb9fe1a85ec53, 0x9FB21C651E98DF25, 0xD6E8FEB86659FD93];
    let mut absorb = |x: u64| {
        for i in 0..4 { l[i] = (l[i] ^ x).wrapping_mul(mul[i]); l[i] ^= l[i] >> 29; }
        let t = l[0]; l[0] = l[0].wrapping_add(l[1].rotate_left(13)); l[1] ^= l[2].rotate_left(27); l[2] = l[2].wrapping_add(l[3].rotate_left(41)); l[3] ^= t.rotate_left(7);
    };
    absorb(data.len() as u64);
    for c in data.chunks(8) { let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c); absorb(u64::from_le_bytes(b)); }
    for i in 0..4 { absorb(i); }
    let mut o = [0u8; 32];
    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes()); }
    o
}

/// Work sharing between the processes of one run.
pub struct Share { pub ctl: &'static Ctl, pub jobs: usize, pub slot: usize, pub base: [f64; 6] }
pub const SLOTS: usize = 60_000;
#[repr(C)]
pub struct Ctl { pub active: AtomicUsize, pub next: AtomicUsize, pub pid: [AtomicI32; SLOTS], pub done: [AtomicI32; SLOTS] }
extern "C" { fn fork() -> i32; fn getpid() -> i32; }

impl Exec {
    /// Gives half of the waiting states to a new process if a core is free. True in that process.
    pub fn hand_over(&mut self) -> bool {
        let n = self.work.len();
        let Some(sh) = &mut self.share else { return false };
        if n == 0 || sh.ctl.active.load(SeqCst) >= sh.jobs { return false; }
        if sh.ctl.active.fetch_add(1, SeqCst) >= sh.jobs { sh.ctl.active.fetch_sub(1, SeqCst); return false; }
        let slot = sh.ctl.next.fetch_add(1, SeqCst);
        if slot >= SLOTS { sh.ctl.active.fetch_sub(1, SeqCst); return false; }
        // SAFETY: plain POSIX process control; the engine has a single working thread.
        let p = unsafe { fork() };
        if p == 0 {
            sh.ctl.pid[slot].store(unsafe { getpid() }, SeqCst);
            sh.slot = slot;
            let v = &self.solver;
            sh.base = [v.queries as f64, v.cache_hits as f64, v.sat as f64, v.unsat as f64, v.unknown as f64, v.time];
            self.stats = Stats::default();
            self.work.truncate(n.div_ceil(2));
            true
        } else {
            if p < 0 { sh.ctl.active.fetch_sub(1, SeqCst); sh.ctl.done[slot].store(1, SeqCst); return false; }
            drop(self.work.drain(..n.div_ceil(2)));
            false
        }
    }
    pub fn new(m: Module, deadline: Instant, max_instrs: u64) -> Exec {
        Exec { m, ar: Arena::new(), solver: Solver::new(), work: VecDeque::new(), stats: Stats::default(), vars: HashMap::new(), ids: HashSet::new(), rankv: HashMap::new(), deadline, max_instrs, trace: std::env::var("KSYM_TRACE").is_ok(), max_viol_per_id: 1, prof: HashMap::new(), share: None }
    }
    pub fn initial(&mut self, entry: &str, args: &[u64]) -> Result<State, String> {
        let fi = *self.m.by_name.get(entry).ok_or_else(|| format!("no entry {entry}"))?;
        if self.m.is_decl(fi) { return Err(format!("entry {entry} is only declared")); }
        let f = self.m.func(fi);
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (i, a) in args.iter().enumerate() { regs[i] = V::I(*a); }
        Ok(State { mem: self.m.init_mem.clone(), regs, frames: vec![], f, pc: 0, base: 0, sp: STACK_BASE, brk: HEAP_BASE, free: [0; 96], cons: vec![], implied: vec![], model: Rc::new(Model::new()), hash_c: Rc::new(vec![]), hash_s: Rc::new(vec![]), names: Rc::new(HashMap::new()), inputs: Rc::new(vec![]), notes: Rc::new(vec![]), rng: 0, seed: 0, ranks: false, symhash: 0, instrs: 0, forks: 0 })
    }
    /// Runs one state to its end, pushing alternatives on the worklist.
    pub fn run_one(&mut self, mut st: State) {
        let r = self.run(&mut st);
        self.stats.instrs += st.instrs;
        self.stats.max_depth = self.stats.max_depth.max(st.forks);
        match r {
            Ok(()) | Err(Stop::Done) => self.stats.paths += 1,
            Err(Stop::Handed) => self.stats.instrs -= st.instrs,
            Err(Stop::Assume) => self.stats.pruned += 1,
            Err(Stop::Violation(id)) => { self.stats.paths += 1; let m = st.model.clone(); self.report(&st, id, &m); }
            Err(Stop::Error(e)) => { if self.trace { eprintln!("ERR {e}\n  {}", self.stack(&st).join("\n  ")); } *self.stats.errors.entry(format!("{e} @ {}", self.stack(&st).first().cloned().unwrap_or_default())).or_insert(0) += 1; }
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![st.f.name.clone()];
        for f in st.frames.iter().rev() { v.push(f.f.name.clone()); }
        v.truncate(24);
        v
    }
    fn report(&mut self, st: &State, id: String, model: &Model) {
        *self.stats.viol_counts.entry(id.clone()).or_insert(0) += 1;
        if self.stats.viols.contains_key(&id) { return; }
        let mut inputs = vec![];
        for (n, w, v) in st.inputs.iter() {
            let x = match v { V::S(e) => self.ar.eval(*e, model), v => v.conc().unwrap() } & mask(*w);
            inputs.push((n.clone(), x));
        }
        let stack = self.stack(st);
        if self.trace { eprintln!("VIOL {id} {:?}\n  {}", inputs, stack.join("\n  ")); }
        self.stats.viols.insert(id.clone(), Viol { id, inputs, stack, notes: st.notes.to_vec() });
    }
    fn to_e(&mut self, v: &V, w: u16) -> E {
        match v { V::S(e) => *e, V::A(_) => panic!("aggregate as scalar"), v => { let k = v.conc().unwrap(); self.ar.konst(k, w) } }
    }
    fn from_e(&self, e: E) -> V { let w = self.ar.w(e); match self.ar.as_const(e) { Some(k) => V::k(k, w), None => V::S(e) } }
    fn check(&mut self, st: &State, c: E) -> R<Option<Model>> {
        let r = self.solver.check(&mut self.ar, &st.cons, c).map_err(Stop::Error)?;
        Ok(r.map(|m| { let mut n = (*st.model).clone(); n.extend(m); n }))
    }
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ar.as_const(c) { return Ok(k == 1); }
        let nc = self.ar.not1(c);
        if st.cons.contains(&c) || st.implied.contains(&c) { return Ok(true); }
        if st.cons.contains(&nc) || st.implied.contains(&nc) { return Ok(false); }
        let b = self.ar.eval(c, &st.model) == 1;
        let (t, f) = if b { (c, nc) } else { (nc, c) };
        match self.check(st, f)? {
            Some(m) => {
                let mut alt = st.clone();
                alt.cons.push(f);
                alt.model = Rc::new(m);
                alt.instrs = 0;
                alt.forks += 1;
                st.forks += 1;
                self.stats.forks += 1;
                self.work.push_back(alt);
                st.cons.push(t);
                if self.hand_over() { return Err(Stop::Handed); }
            }
            None => st.implied.push(t),
        }
        Ok(b)
    }
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.ar.as_const(e) { return Ok(k); }
        let w = self.ar.w(e);
        loop {
            let v = self.ar.eval(e, &st.model);
            let k = self.ar.konst(v, w);
            let c = self.ar.bin(Op::Eq, e, k);
            if self.decide(st, c)? { return Ok(v); }
        }
    }
    /// Splits on a fresh choice variable in one step, in value order.
    fn cval(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v { V::S(e) => self.concretize(st, *e), V::A(_) => Err(Stop::Error("aggregate where scalar expected".into())), v => Ok(v.conc().unwrap()) }
    }
    #[inline(always)] fn get<'a>(st: &'a State, o: Opd) -> &'a V {
        if o & CONST != 0 { &st.f.consts[(o & !CONST) as usize] } else { &st.regs[(st.base + o) as usize] }
    }
    #[inline(always)] fn set(st: &mut State, d: Reg, v: V) { let i = (st.base + d) as usize; st.regs[i] = v; }
    /// Concrete pointer operand; a symbolic one is concretised and written back.
    #[inline(always)] fn ptr(&mut self, st: &mut State, o: Opd, n: u64) -> R<u64> {
        let a = match Self::get(st, o) { V::I(x) => *x, v => { let v = v.clone(); self.cval(st, &v)? as u64 } };
        if !st.mem.valid(a) || !st.mem.valid(a.wrapping_add(n)) { return Err(Stop::Error(format!("bad address {a:#x}"))); }
        Ok(a)
    }
    fn branch(st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let (d, o) = e.moves[0]; let v = Self::get(st, o).clone(); Self::set(st, d, v); }
            _ => {
                let vals: Vec<V> = e.moves.iter().map(|(_, o)| Self::get(st, *o).clone()).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) { Self::set(st, *d, v); }
            }
        }
        st.pc = e.target;
    }
    fn binop(&mut self, op: Op, w: u16, a: &V, b: &V) -> V {
        match (a.conc(), b.conc()) {
            (Some(x), Some(y)) => V::k(Arena::fold(op, w, x, y), w),
            _ => { let x = self.to_e(a, w); let y = self.to_e(b, w); let e = self.ar.bin(op, x, y); self.from_e(e) }
        }
    }
    fn icmp(&mut self, p: u8, w: u16, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            let r = match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y, 38 => sx(x, w) > sx(y, w), 39 => sx(x, w) >= sx(y, w), 40 => sx(x, w) < sx(y, w), _ => sx(x, w) <= sx(y, w) };
            return V::I(r as u64);
        }
        let x = self.to_e(a, w); let y = self.to_e(b, w);
        let e = match p {
            32 => self.ar.bin(Op::Eq, x, y),
            33 => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not1(e) }
            34 => self.ar.bin(Op::Ult, y, x), 35 => self.ar.bin(Op::Ule, y, x), 36 => self.ar.bin(Op::Ult, x, y), 37 => self.ar.bin(Op::Ule, x, y),
            38 => self.ar.bin(Op::Slt, y, x), 39 => self.ar.bin(Op::Sle, y, x), 40 => self.ar.bin(Op::Slt, x, y), _ => self.ar.bin(Op::Sle, x, y),
        };
        self.from_e(e)
    }
    fn cast(&mut self, k: CastK, fw: u16, tw: u16, a: &V) -> V {
        match a {
            V::S(e) => { let e = match k { CastK::Trunc => self.ar.extract(*e, 0, tw), CastK::ZExt => self.ar.zext(*e, tw), CastK::SExt => self.ar.sext(*e, tw), CastK::Mov => *e }; self.from_e(e) }
            v => { let x = v.conc().unwrap(); match k { CastK::SExt => V::k(sx(x, fw) as u128, tw), _ => V::k(x & mask(fw), tw) } }
        }
    }
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> V {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                let n = (w as usize).div_ceil(8);
                if n <= 16 { if let Some(x) = st.mem.load_c(a, n) { return V::k(x, w); } }
                let e = st.mem.load_s(&mut self.ar, a, n);
                let e = self.ar.extract(e, 0, w);
                self.from_e(e)
            }
            Ty::Vec(e, n) => {
                let w = e.bits();
                if w < 8 { let tot = Ty::Int(w * *n as u16); let v = self.load(st, a, &tot); let el = (0..*n as usize).map(|i| match &v { V::S(x) => { let b = self.ar.extract(*x, i as u16 * w, w); self.from_e(b) } v => V::k(v.conc().unwrap() >> (i * w as usize), w) }).collect(); return vec_build(w, el); }
                let el = (0..*n as u64).map(|i| self.load(st, a + i * (w / 8) as u64, e)).collect();
                vec_build(w, el)
            }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|(o, t)| self.load(st, a + o, t)).collect())),
            Ty::Array(e, n, s) => V::A(Rc::new((0..*n).map(|i| self.load(st, a + i * s, e)).collect())),
            _ => V::I(0),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, v: &V, ty: &Ty) {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                let n = (w as usize).div_ceil(8);
                match v { V::S(e) => st.mem.store_s(&mut self.ar, a, *e, n), v => st.mem.store_c(a, v.conc().unwrap_or(0), n) }
            }
            Ty::Vec(e, n) => { let w = e.bits();
                if w < 8 { let v = self.bits_of(v, ty); self.store(st, a, &v, &Ty::Int(w * *n as u16)); return; }
                for i in 0..*n as usize { let x = vec_get(v, w, i); self.store(st, a + (i * w as usize / 8) as u64, &x, e); } }
            Ty::Struct(f, _) => { if let V::A(x) = v { for (i, (o, t)) in f.iter().enumerate() { self.store(st, a + o, &x[i], t); } } }
            Ty::Array(e, _, s) => { if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.store(st, a + i as u64 * s, y, e); } } }
            _ => {}
        }
    }
    /// Flattens a scalar or vector to one integer value (at most 128 bits concrete / any width symbolic).
    fn bits_of(&mut self, v: &V, ty: &Ty) -> V {
        match (ty, v) {
            (Ty::Vec(e, _), V::A(x)) => {
                let w = e.bits();
                let mut r: Option<E> = None;
                for el in x.iter() { let b = self.to_e(el, w); r = Some(match r { None => b, Some(l) => self.ar.concat(b, l) }); }
                self.from_e(r.unwrap())
            }
            _ => v.clone(),
        }
    }
    fn unbits(&mut self, v: &V, ty: &Ty) -> V {
        match (ty, v) {
            (Ty::Vec(e, n), V::S(x)) => { let w = e.bits(); let el = (0..*n).map(|i| { let b = self.ar.extract(*x, i as u16 * w, w); self.from_e(b) }).collect(); vec_build(w, el) }
            _ => v.clone(),
        }
    }
    fn var(&mut self, st: &mut State, name: &str, w: u16) -> (String, E) {
        let n = { let h = Rc::make_mut(&mut st.names); let c = h.entry(name.to_string()).or_insert(0); *c += 1; *c - 1 };
        let full = format!("{name}#{n}");
        let e = match self.vars.get(&(full.clone(), w)) { Some(e) => *e, None => { let e = self.ar.var(&full, w); self.vars.insert((full.clone(), w), e); e } };
        (full, e)
    }
    fn read_str(&self, st: &State, p: u64, n: u64) -> String { String::from_utf8_lossy(&st.mem.read_conc(p, n as usize).unwrap_or_default()).into_owned() }

    fn run(&mut self, st: &mut State) -> R<()> {
        let mut tick = 0u32;
        loop {
            st.instrs += 1;
            tick += 1;
            if tick & 0xfff == 0 {
                if st.instrs > self.max_instrs { return Err(Stop::Error("instruction limit".into())); }
                if tick & 0xfffff == 0 && Instant::now() > self.deadline { self.stats.timeouts += 1; return Err(Stop::Error("time limit".into())); }
            }
            let f: *const Func = &*st.f;
            // SAFETY: the frame keeps the function alive while its instruction executes.
            let ins: &I = unsafe { &(&(*f).code)[st.pc as usize] };
            match ins {
                I::Bin { op, w, d, a, b } => {
                    if let (V::I(x), V::I(y)) = (Self::get(st, *a), Self::get(st, *b)) {
                        let (x, y) = (*x, *y);
                        let m = mask(*w) as u64;
                        let r = match op {
                            Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                            Op::Mul => x.wrapping_mul(y) & m,
                            Op::LShr => if y < 64 { x >> y } else { 0 }, Op::Shl => if y < 64 { (x << y) & m } else { 0 },
                            _ => Arena::fold(*op, *w, x as u128, y as u128) as u64,
                        };
                        Self::set(st, *d, V::I(r));
                    } else {
                        let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                        let v = self.binop(*op, *w, &x, &y);
                        Self::set(st, *d, v);
                    }
                    st.pc += 1;
                }
                I::ICmp { p, w, d, a, b } => {
                    if let (V::I(x), V::I(y)) = (Self::get(st, *a), Self::get(st, *b)) {
                        let (x, y) = (*x, *y);
                        let r = match p { 32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y,
                            _ => { let s = 64 - *w as u32; let (x, y) = (((x << s) as i64) >> s, ((y << s) as i64) >> s); match p { 38 => x > y, 39 => x >= y, 40 => x < y, _ => x <= y } } };
                        Self::set(st, *d, V::I(r as u64));
                    } else {
                        let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                        let v = self.icmp(*p, *w, &x, &y);
                        Self::set(st, *d, v);
                    }
                    st.pc += 1;
                }
                I::VBin { op, w, n, d, a, b } => {
                    let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                    let el = (0..*n as usize).map(|i| { let p = vec_get(&x, *w, i); let q = vec_get(&y, *w, i); self.binop(*op, *w, &p, &q) }).collect();
                    Self::set(st, *d, vec_build(*w, el)); st.pc += 1;
                }
                I::VICmp { p, w, n, d, a, b } => {
                    let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                    let el = (0..*n as usize).map(|i| { let u = vec_get(&x, *w, i); let q = vec_get(&y, *w, i); self.icmp(*p, *w, &u, &q) }).collect();
                    Self::set(st, *d, vec_build(1, el)); st.pc += 1;
                }
                I::Cast { k, fw, tw, d, a } => {
                    let v = match Self::get(st, *a) {
                        V::I(x) if *tw <= 64 => match k { CastK::SExt => V::I(sx(*x as u128, *fw) as u64 & mask(*tw) as u64), _ => V::I(*x & mask(*tw) as u64) },
                        v => { let v = v.clone(); self.cast(*k, *fw, *tw, &v) }
                    };
                    Self::set(st, *d, v); st.pc += 1;
                }
                I::VCast { k, fw, tw, n, d, a } => {
                    let x = Self::get(st, *a).clone();
                    let el = (0..*n as usize).map(|i| { let u = vec_get(&x, *fw, i); self.cast(*k, *fw, *tw, &u) }).collect();
                    Self::set(st, *d, vec_build(*tw, el)); st.pc += 1;
                }
                I::BitCast { f, t, d, a } => {
                    let x = Self::get(st, *a).clone();
                    let v = if f == t { x } else { let b = self.bits_of(&x, f); self.unbits(&b, t) };
                    Self::set(st, *d, v); st.pc += 1;
                }
                I::LoadI { d, p, n, w } => {
                    let a = self.ptr(st, *p, *n as u64)?;
                    let v = match st.mem.load_c(a, *n as usize) {
                        Some(x) => if *w <= 64 { V::I(x as u64 & mask(*w) as u64) } else { V::k(x, *w) },
                        None => { let e = st.mem.load_s(&mut self.ar, a, *n as usize); let e = self.ar.extract(e, 0, *w); self.from_e(e) }
                    };
                    Self::set(st, *d, v); st.pc += 1;
                }
                I::Load { d, p, ty } => { let a = self.ptr(st, *p, 1)?; let v = self.load(st, a, ty); Self::set(st, *d, v); st.pc += 1; }
                I::StoreI { v, p, n, .. } => {
                    let a = self.ptr(st, *p, *n as u64)?;
                    match Self::get(st, *v) {
                        V::I(x) => { let x = *x as u128; st.mem.store_c(a, x, *n as usize) }
                        V::W(l, h) => { let x = (*h as u128) << 64 | *l as u128; st.mem.store_c(a, x, *n as usize) }
                        V::S(e) => { let e = *e; st.mem.store_s(&mut self.ar, a, e, *n as usize) }
                        V::A(_) => return Err(Stop::Error("aggregate stored as scalar".into())),
                    }
                    st.pc += 1;
                }
                I::Store { v, p, ty } => { let a = self.ptr(st, *p, 1)?; let x = Self::get(st, *v).clone(); self.store(st, a, &x, ty); st.pc += 1; }
                I::Gep { d, base, off, idx } => {
                    let b = Self::get(st, *base).clone();
                    let v = if let V::I(x) = b {
                        let mut r = x.wrapping_add(*off as u64);
                        let mut symb = false;
                        for (o, s, w) in idx.iter() {
                            match Self::get(st, *o) { V::I(i) => r = r.wrapping_add((sx(*i as u128, *w) as i64).wrapping_mul(*s) as u64), _ => { symb = true; break; } }
                        }
                        if symb { self.gep_sym(st, V::I(x), *off, idx) } else { V::I(r) }
                    } else { self.gep_sym(st, b, *off, idx) };
                    Self::set(st, *d, v); st.pc += 1;
                }
                I::Select { d, c, a, b, ty, vc } => {
                    let cv = Self::get(st, *c).clone();
                    let v = if *vc {
                        let (w, n) = match ty { Ty::Vec(e, n) => (e.bits(), *n), _ => return Err(Stop::Error("vector select".into())) };
                        let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                        let el = (0..n as usize).map(|i| {
                            let cc = vec_get(&cv, 1, i); let p = vec_get(&x, w, i); let q = vec_get(&y, w, i);
                            match cc { V::S(e) => { let p = self.to_e(&p, w); let q = self.to_e(&q, w); let r = self.ar.ite(e, p, q); self.from_e(r) } k => if k.conc() == Some(1) { p } else { q } }
                        }).collect();
                        vec_build(w, el)
                    } else {
                        match cv {
                            V::S(e) => {
                                if ty.is_scalar() && *ty != Ty::Ptr {
                                    let w = ty.bits();
                                    let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                                    let (x, y) = (self.to_e(&x, w), self.to_e(&y, w));
                                    let r = self.ar.ite(e, x, y); self.from_e(r)
                                } else { let t = self.decide(st, e)?; Self::get(st, if t { *a } else { *b }).clone() }
                            }
                            V::I(k) => Self::get(st, if k & 1 == 1 { *a } else { *b }).clone(),
                            _ => return Err(Stop::Error("select cond".into())),
                        }
                    };
                    Self::set(st, *d, v); st.pc += 1;
                }
                I::Br(e) => Self::branch(st, e),
                I::CondBr { c, t, f } => {
                    let b = match Self::get(st, *c) { V::I(x) => *x & 1 == 1, V::S(e) => { let e = *e; self.decide(st, e)? } _ => return Err(Stop::Error("cond".into())) };
                    Self::branch(st, if b { t } else { f });
                }
                I::Switch { v, w, cases, def } => {
                    let x = match Self::get(st, *v).clone() {
                        V::S(e) => {
                            let mut hit: Option<&Edge> = None;
                            for (k, ed) in cases.iter() {
                                let kk = self.ar.konst(*k, *w);
                                let c = self.ar.bin(Op::Eq, e, kk);
                                if self.decide(st, c)? { hit = Some(ed); break; }
                            }
                            Self::branch(st, hit.unwrap_or(def));
                            continue;
                        }
                        k => k.conc().unwrap(),
                    };
                    let ed = cases.iter().find(|(k, _)| *k == x).map(|(_, e)| e).unwrap_or(def);
                    Self::branch(st, ed);
                }
                I::Ret(v) => {
                    let r = v.map(|o| Self::get(st, o).clone());
                    match st.frames.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => {
                            st.regs.truncate(st.base as usize);
                            st.f = fr.f; st.pc = fr.pc; st.base = fr.base; st.sp = fr.sp;
                            self.finish_call(st, r);
                        }
                    }
                }
                I::Call { callee, args, .. } => {
                    let fi = match callee {
                        Callee::Func(i) | Callee::Ext(i) => *i,
                        Callee::Ind(o) => { let v = Self::get(st, *o).clone(); let a = self.cval(st, &v)? as u64; match self.m.func_of_addr(a) { Some(i) => i, None => return Err(Stop::Error(format!("indirect call to {a:#x}"))) } }
                    };
                    self.call(st, fi, args, ins)?;
                }
                I::Unreachable => return Err(Stop::Error("reached unreachable".into())),
                I::Extract { d, a, path } => {
                    let mut v = Self::get(st, *a).clone();
                    for i in path.iter() { v = match v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Error("extractvalue".into())) }; }
                    Self::set(st, *d, v); st.pc += 1;
                }
                I::Insert { d, a, v, path } => {
                    fn ins(agg: V, v: V, p: &[u32]) -> V { if p.is_empty() { return v; } match agg { V::A(x) => { let mut y = (*x).clone(); y[p[0] as usize] = ins(y[p[0] as usize].clone(), v, &p[1..]); V::A(Rc::new(y)) } o => o } }
                    let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *v).clone());
                    Self::set(st, *d, ins(x, y, path)); st.pc += 1;
                }
                I::ExtractEl { d, a, i, ty } => {
                    let (x, k) = (Self::get(st, *a).clone(), Self::get(st, *i).clone());
                    let k = self.cval(st, &k)? as usize;
                    let w = match ty { Ty::Vec(e, _) => e.bits(), _ => 0 };
                    Self::set(st, *d, vec_get(&x, w, k)); st.pc += 1;
                }
                I::InsertEl { d, a, v, i, ty } => {
                    let (x, y, k) = (Self::get(st, *a).clone(), Self::get(st, *v).clone(), Self::get(st, *i).clone());
                    let k = self.cval(st, &k)? as usize;
                    let (w, n) = match ty { Ty::Vec(e, n) => (e.bits(), *n as usize), _ => (0, 0) };
                    let mut el: Vec<V> = (0..n).map(|j| vec_get(&x, w, j)).collect();
                    el[k] = y;
                    Self::set(st, *d, vec_build(w, el)); st.pc += 1;
                }
                I::Shuffle { d, a, b, mask, ity, .. } => {
                    let (x, y) = (Self::get(st, *a).clone(), Self::get(st, *b).clone());
                    let (w, n) = match ity { Ty::Vec(e, n) => (e.bits(), *n as i32), _ => (0, 0) };
                    let el = mask.iter().map(|&i| if i < 0 { V::k(0, w) } else if i < n { vec_get(&x, w, i as usize) } else { vec_get(&y, w, (i - n) as usize) }).collect();
                    Self::set(st, *d, vec_build(w, el)); st.pc += 1;
                }
                I::Rmw { op, d, p, v, w } => {
                    let a = self.ptr(st, *p, 8)?;
                    let ty = Ty::Int(*w);
                    let old = self.load(st, a, &ty);
                    let x = Self::get(st, *v).clone();
                    // 0 xchg 1 add 2 sub 3 and 4 nand 5 or 6 xor 7 max 8 min 9 umax 10 umin
                    let new = match op {
                        0 => x, 1 => self.binop(Op::Add, *w, &old, &x), 2 => self.binop(Op::Sub, *w, &old, &x), 3 => self.binop(Op::And, *w, &old, &x), 5 => self.binop(Op::Or, *w, &old, &x), 6 => self.binop(Op::Xor, *w, &old, &x),
                        9 => { let c = self.icmp(34, *w, &old, &x); if c.conc() == Some(1) { old.clone() } else { x } }
                        10 => { let c = self.icmp(36, *w, &old, &x); if c.conc() == Some(1) { old.clone() } else { x } }
                        _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                    };
                    self.store(st, a, &new, &ty);
                    Self::set(st, *d, old); st.pc += 1;
                }
                I::CmpXchg { d, p, c, v, w } => {
                    let a = self.ptr(st, *p, 8)?;
                    let ty = Ty::Int(*w);
                    let old = self.load(st, a, &ty);
                    let x = Self::get(st, *c).clone();
                    let nv = Self::get(st, *v).clone();
                    let eq = match self.icmp(32, *w, &old, &x) { V::S(e) => self.decide(st, e)?, k => k.conc() == Some(1) };
                    if eq { self.store(st, a, &nv, &ty); }
                    Self::set(st, *d, V::A(Rc::new(vec![old, V::I(eq as u64)]))); st.pc += 1;
                }
                I::Alloca { d, size, align, count } => {
                    let c = Self::get(st, *count).clone();
                    let n = self.cval(st, &c)? as u64;
                    let a = (st.sp + align - 1) & !(align - 1);
                    st.sp = a + size * n;
                    if st.sp > STACK_END { return Err(Stop::Violation("stack overflow".into())); }
                    Self::set(st, *d, V::I(a)); st.pc += 1;
                }
                I::Mov { d, a } => { let v = Self::get(st, *a).clone(); Self::set(st, *d, v); st.pc += 1; }
                I::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction {s}"))),
            }
        }
    }
    fn gep_sym(&mut self, st: &State, b: V, off: i64, idx: &[(Opd, i64, u16)]) -> V {
        let mut e = self.to_e(&b, 64);
        let k = self.ar.konst(off as u64 as u128, 64);
        e = self.ar.bin(Op::Add, e, k);
        for (o, s, w) in idx {
            let v = Self::get(st, *o).clone();
            let i = self.to_e(&v, *w);
            let i = if *w < 64 { self.ar.sext(i, 64) } else { i };
            let sc = self.ar.konst(*s as u64 as u128, 64);
            let t = self.ar.bin(Op::Mul, i, sc);
            e = self.ar.bin(Op::Add, e, t);
        }
        self.from_e(e)
    }
    /// Completes the call instruction the current frame points at.
    #[inline] fn finish_call(&mut self, st: &mut State, r: Option<V>) {
        let f: *const Func = &*st.f;
        // SAFETY: the frame keeps the function alive.
        if let I::Call { d, has_ret, normal, .. } = unsafe { &(&(*f).code)[st.pc as usize] } {
            if *has_ret { if let Some(v) = r { Self::set(st, *d, v); } }
            match normal { Some(e) => Self::branch(st, e), None => st.pc += 1 }
        } else { unreachable!() }
    }
    fn call(&mut self, st: &mut State, fi: u32, args: &[Opd], ins: &I) -> R<()> {
        if self.m.is_decl(fi) || self.m.hooked(fi) {
            let vals: Vec<V> = args.iter().map(|o| Self::get(st, *o).clone()).collect();
            let r = self.external(st, fi, vals, ins)?;
            self.finish_call(st, r);
            return Ok(());
        }
        let f = self.m.func(fi);
        if st.frames.len() > 4000 { return Err(Stop::Violation("call depth limit (runaway recursion)".into())); }
        let nb = st.regs.len() as u32;
        st.regs.resize(nb as usize + f.nregs as usize, V::I(0));
        for (i, o) in args.iter().enumerate() {
            if i as u32 >= f.nargs { break; }
            let v = Self::get(st, *o).clone();
            st.regs[nb as usize + i] = v;
        }
        let caller = std::mem::replace(&mut st.f, f);
        st.frames.push(Frame { f: caller, pc: st.pc, base: st.base, sp: st.sp });
        st.pc = 0; st.base = nb;
        Ok(())
    }
    // ---- allocation -------------------------------------------------------
    fn class(n: u64) -> (usize, u64) {
        if n <= 1024 { let c = n.max(1).div_ceil(16); (c as usize - 1, c * 16) } else { let p = 64 - (n - 1).leading_zeros() as usize; (64 + p - 10, 1 << p) }
    }
    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> R<u64> {
        let (c, sz) = Self::class(n);
        if c >= 96 || sz > 1 << 28 { return Err(Stop::Violation(format!("allocation of {n} bytes"))); }
        if align <= 16 && st.free[c] != 0 {
            let a = st.free[c];
            st.free[c] = st.mem.load_c(a, 8).unwrap() as u64;
            st.mem.store_c(a - 8, c as u128, 8);
            return Ok(a);
        }
        let al = align.max(16);
        let a = (st.brk + 16 + al - 1) & !(al - 1);
        st.brk = a + sz;
        if !st.mem.valid(st.brk + 65536) { return Err(Stop::Error("out of modelled memory".into())); }
        st.mem.store_c(a - 8, if align <= 16 { c as u128 } else { 1000 }, 8);
        Ok(a)
    }
    fn block_size(&self, st: &State, a: u64) -> u64 {
        let c = st.mem.load_c(a - 8, 8).unwrap_or(1000) as usize;
        if c < 64 { (c as u64 + 1) * 16 } else if c < 96 { 1 << (c - 64 + 10) } else { 0 }
    }
    fn free(&mut self, st: &mut State, a: u64) {
        if a == 0 { return; }
        let c = st.mem.load_c(a - 8, 8).unwrap_or(1000) as usize;
        if c >= 96 { return; }
        st.mem.store_c(a, st.free[c] as u128, 8);
        st.mem.store_c(a - 8, 2000, 8);
        st.free[c] = a;
    }
    fn random(&mut self, st: &mut State, p: u64, n: u64) {
        let mut i = 0;
        while i < n {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&st.rng.to_le_bytes());
            b[8..].copy_from_slice(&st.seed.to_le_bytes());
            st.rng += 1;
            let o = prf(7, &b);
            let k = (n - i).min(32) as usize;
            if n == 32 { self.ids.insert(o); }
            st.mem.write(p + i, &o[..k]);
            i += k as u64;
        }
    }
    fn rank(&mut self, id: [u8; 32]) -> E {
        if let Some(e) = self.rankv.get(&id) { return *e; }
        let e = self.ar.var(&format!("rank[{}]", id[..4].iter().map(|b| format!("{b:02x}")).collect::<String>()), 10);
        self.rankv.insert(id, e);
        e
    }
    fn memcmp(&mut self, st: &mut State, a: u64, b: u64, n: u64, order: bool) -> R<V> {
        let (x, y) = (st.mem.read_conc(a, n as usize), st.mem.read_conc(b, n as usize));
        if let (Some(x), Some(y)) = (&x, &y) {
            if x == y { return Ok(V::I(0)); }
            if order && n == 32 && st.ranks {
                let (p, q): ([u8; 32], [u8; 32]) = (x[..].try_into().unwrap(), y[..].try_into().unwrap());
                let high = |b: &[u8; 32]| b.iter().collect::<HashSet<_>>().len() >= 12;
                if self.ids.contains(&p) || self.ids.contains(&q) || (high(&p) && high(&q)) {
                    let (rp, rq) = (self.rank(p), self.rank(q));
                    let lt = self.ar.bin(Op::Ult, rp, rq);
                    let less = self.decide(st, lt)?;
                    if !less {
                        let gt = self.ar.bin(Op::Ult, rq, rp);
                        if !st.cons.contains(&gt) {
                            // distinct identifiers never compare equal
                            match self.check(st, gt)? { Some(m) => { st.model = Rc::new(m); st.cons.push(gt); } None => return Err(Stop::Assume) }
                        }
                    }
                    return Ok(V::k(if less { u128::MAX } else { 1 }, 32));
                }
            }
            return Ok(V::k(if x < y { u128::MAX } else { 1 }, 32));
        }
        let mut r = self.ar.konst(0, 32);
        let lo = self.ar.konst(u128::MAX, 32);
        let hi = self.ar.konst(1, 32);
        for i in (0..n).rev() {
            let (p, pe) = st.mem.byte(a + i); let (q, qe) = st.mem.byte(b + i);
            let p = if pe != 0 { pe } else { self.ar.konst(p as u128, 8) };
            let q = if qe != 0 { qe } else { self.ar.konst(q as u128, 8) };
            let eq = self.ar.bin(Op::Eq, p, q);
            let lt = self.ar.bin(Op::Ult, p, q);
            let s = if order { self.ar.ite(lt, lo, hi) } else { hi };
            r = self.ar.ite(eq, r, s);
        }
        Ok(self.from_e(r))
    }
    fn hash(&mut self, st: &mut State, p: u64, n: u64) -> R<[u8; 32]> {
        if let Some(c) = st.mem.read_conc(p, n as usize) {
            // a symbolic content hashed earlier may equal this one
            let hs = st.hash_s.clone();
            for h in hs.iter().filter(|h| h.content.len() == n as usize) {
                let mut e = self.ar.konst(1, 1);
                for (i, (b, s)) in h.content.iter().enumerate() {
                    let l = if *s != 0 { *s } else { self.ar.konst(*b as u128, 8) };
                    let r = self.ar.konst(c[i] as u128, 8);
                    let q = self.ar.bin(Op::Eq, l, r);
                    e = self.ar.bin(Op::And, e, q);
                }
                if self.decide(st, e)? { return Ok(h.out); }
            }
            let out = prf(1, &c);
            self.ids.insert(out);
            if n <= 4096 { Rc::make_mut(&mut st.hash_c).push(Rc::new(HEntry { content: c.into_iter().map(|b| (b, 0)).collect(), out })); }
            return Ok(out);
        }
        let mine: Vec<(u8, E)> = (0..n).map(|i| st.mem.byte(p + i)).collect();
        let (hs, hc) = (st.hash_s.clone(), st.hash_c.clone());
        let mut seen = HashSet::new();
        for h in hs.iter().chain(hc.iter()).filter(|h| h.content.len() == n as usize) {
            if !seen.insert(h.out) { continue; }
            let mut e = self.ar.konst(1, 1);
            for (i, (b, s)) in h.content.iter().enumerate() {
                let l = if *s != 0 { *s } else { self.ar.konst(*b as u128, 8) };
                let r = if mine[i].1 != 0 { mine[i].1 } else { self.ar.konst(mine[i].0 as u128, 8) };
                let q = self.ar.bin(Op::Eq, l, r);
                e = self.ar.bin(Op::And, e, q);
                if self.ar.as_const(e) == Some(0) { break; }
            }
            if self.decide(st, e)? { return Ok(h.out); }
        }
        st.symhash += 1;
        let mut t = st.symhash.to_le_bytes().to_vec(); t.extend_from_slice(&n.to_le_bytes());
        let out = prf(2, &t);
        self.ids.insert(out);
        Rc::make_mut(&mut st.hash_s).push(Rc::new(HEntry { content: mine, out }));
        Ok(out)
    }
    // ---- externals --------------------------------------------------------
    fn external(&mut self, st: &mut State, fi: u32, a: Vec<V>, ins: &I) -> R<Option<V>> {
        let name = self.m.fnames[fi as usize].clone();
        let (rty, aty) = match ins { I::Call { rty, aty, .. } => (rty.clone(), aty.clone()), _ => unreachable!() };
        macro_rules! k { ($i:expr) => { self.cval(st, &a[$i])? as u64 } }
        let ok = |v: u64| Ok(Some(V::I(v)));
        if let Some(s) = name.strip_prefix("llvm.") { return self.intrinsic(st, s, &a, &rty, &aty); }
        match name.as_str() {
            "malloc" => { let n = k!(0); ok(self.malloc(st, n, 16)?) }
            "calloc" => { let n = k!(0) * k!(1); let p = self.malloc(st, n, 16)?; st.mem.fill(p, 0, n as usize); ok(p) }
            "realloc" => { let (p, n) = (k!(0), k!(1)); if p == 0 { return ok(self.malloc(st, n, 16)?); }
                let old = self.block_size(st, p); if n <= old { return ok(p); }
                let q = self.malloc(st, n, 16)?; st.mem.copy(q, p, old.min(n) as usize); self.free(st, p); ok(q) }
            "posix_memalign" => { let (out, al, n) = (k!(0), k!(1), k!(2)); let p = self.malloc(st, n, al)?; st.mem.store_c(out, p as u128, 8); ok(0) }
            "aligned_alloc" => { let (al, n) = (k!(0), k!(1)); ok(self.malloc(st, n, al)?) }
            "free" => { let p = k!(0); self.free(st, p); Ok(None) }
            "memcpy" | "memmove" => { let (d, s, n) = (k!(0), k!(1), k!(2)); self.range(st, d, n)?; self.range(st, s, n)?; st.mem.copy(d, s, n as usize); ok(d) }
            "memset" => { let (d, c, n) = (k!(0), k!(1), k!(2)); self.range(st, d, n)?; st.mem.fill(d, c as u8, n as usize); ok(d) }
            "memcmp" => { let (x, y, n) = (k!(0), k!(1), k!(2)); Ok(Some(self.memcmp(st, x, y, n, true)?)) }
            "bcmp" => { let (x, y, n) = (k!(0), k!(1), k!(2)); Ok(Some(self.memcmp(st, x, y, n, false)?)) }
            "strlen" => { let p = k!(0); let mut n = 0; while st.mem.byte(p + n).0 != 0 { n += 1; } ok(n) }
            "memchr" => { let (p, c, n) = (k!(0), k!(1), k!(2)); for i in 0..n { let (b, e) = st.mem.byte(p + i); if e != 0 { return Err(Stop::Error("memchr on symbolic".into())); } if b == c as u8 { return ok(p + i); } } ok(0) }
            "getrandom" => { let (p, n) = (k!(0), k!(1)); if p != 0 && n > 0 { self.range(st, p, n)?; self.random(st, p, n); } ok(n) }
            "syscall" => { let nr = k!(0); match nr {
                318 => { let (p, n) = (k!(1), k!(2)); if p != 0 && n > 0 { self.range(st, p, n)?; self.random(st, p, n); } ok(n) }
                202 | 186 | 24 => ok(0),
                _ => Err(Stop::Error(format!("syscall {nr}"))) } }
            "write" | "writev" => { let n = k!(2); if self.trace && name == "write" { let p = k!(1); eprint!("{}", self.read_str(st, p, n)); } ok(n) }
            "getenv" | "secure_getenv" => ok(0),
            "dlsym" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" | "pthread_self" | "atexit" | "sigaction" | "signal" | "poll" | "sigaltstack" => ok(0),
            "__errno_location" => { ok(0x2000) }
            "abort" | "_exit" | "exit" | "__rust_abort" => Err(Stop::Violation(format!("abort:{name}"))),
            // --- verification intrinsics ---
            "ksym_sym" => { let (p, n, w) = (k!(0), k!(1), k!(2)); let s = self.read_str(st, p, n);
                let (full, e) = self.var(st, &s, w as u16);
                Rc::make_mut(&mut st.inputs).push((full, w as u16, V::S(e)));
                let e = self.ar.zext(e, 64); Ok(Some(self.from_e(e))) }
            "ksym_choice" => { let (p, n, lim) = (k!(0), k!(1), k!(2)); 
                if lim == 0 { return Err(Stop::Assume); }
                if lim == 1 { return ok(0); }
                let s = self.read_str(st, p, n);
                // re-executed after a fork: the name counter only advances once the value is fixed
                let save = st.names.clone();
                let (full, e) = self.var(st, &s, 16);
                st.names = save;
                let l = self.ar.konst(lim as u128, 16);
                let c = self.ar.bin(Op::Ult, e, l);
                if !st.cons.contains(&c) { match self.check(st, c)? { Some(m) => { st.model = Rc::new(m); st.cons.push(c); } None => return Err(Stop::Assume) } }
                let v = self.concretize(st, e)?;
                let h = Rc::make_mut(&mut st.names); *h.entry(s).or_insert(0) += 1;
                Rc::make_mut(&mut st.inputs).push((full, 16, V::I(v as u64)));
                ok(v as u64) }
            "ksym_concretize" => { let v = k!(0); ok(v) }
            "ksym_assume" => match &a[0] {
                V::S(e) => { let w = self.ar.w(*e); let z = self.ar.konst(0, w); let q = self.ar.bin(Op::Eq, *e, z); let c = self.ar.not1(q);
                    if st.cons.contains(&c) { return Ok(None); }
                    match self.check(st, c)? { Some(m) => { if self.ar.eval(c, &st.model) != 1 { st.model = Rc::new(m); } st.cons.push(c); Ok(None) } None => Err(Stop::Assume) } }
                v => if v.conc().unwrap() & 0xff != 0 { Ok(None) } else { Err(Stop::Assume) },
            },
            "ksym_assert" => { let (p, n) = (k!(1), k!(2)); let id = self.read_str(st, p, n);
                *self.stats.asserts.entry(id.clone()).or_insert(0) += 1;
                match &a[0] {
                    V::S(e) => { let w = self.ar.w(*e); let z = self.ar.konst(0, w); let bad = self.ar.bin(Op::Eq, *e, z);
                        if let Some(m) = self.check(st, bad)? { self.report(st, format!("assert:{id}"), &m); }
                        let c = self.ar.not1(bad);
                        match self.check(st, c)? { Some(m) => { if self.ar.eval(c, &st.model) != 1 { st.model = Rc::new(m); } st.cons.push(c); Ok(None) } None => Err(Stop::Assume) } }
                    v => if v.conc().unwrap() & 0xff != 0 { Ok(None) } else { Err(Stop::Violation(format!("assert:{id}"))) },
                } }
            "ksym_cover" => { let (p, n) = (k!(0), k!(1)); let id = self.read_str(st, p, n); *self.stats.covers.entry(id).or_insert(0) += 1; Ok(None) }
            "ksym_note" => { let (p, n) = (k!(0), k!(1)); let s = self.read_str(st, p, n); if self.trace { eprintln!("NOTE {s}"); } Rc::make_mut(&mut st.notes).push(s); Ok(None) }
            "ksym_hash" => { let (p, n, o) = (k!(0), k!(1), k!(2)); let h = self.hash(st, p, n)?; st.mem.write(o, &h); Ok(None) }
            "ksym_seed" => { let s = k!(0); st.seed = s; Ok(None) }
            "ksym_ranks" => { let s = k!(0); st.ranks = s & 1 != 0; Ok(None) }
            "ksym_is_symbolic" => { let (p, n) = (k!(0), k!(1)); ok((0..n).any(|i| st.mem.byte(p + i).1 != 0) as u64) }
            _ => {
                if name.contains("panicking9panic_fmt") {
                    let loc = k!(a.len() - 1);
                    let (fp, fl) = (st.mem.load_c(loc, 8).unwrap_or(0) as u64, st.mem.load_c(loc + 8, 8).unwrap_or(0) as u64);
                    let line = st.mem.load_c(loc + 16, 4).unwrap_or(0);
                    let file = if fl < 4096 { self.read_str(st, fp, fl) } else { "?".into() };
                    return Err(Stop::Violation(format!("panic:{file}:{line}")));
                }
                if name.contains("panic_nounwind") || name.contains("rust_panic") || name.contains("panic_with_hook") || name.contains("handle_alloc_error") { return Err(Stop::Violation(format!("panic:{name}"))); }
                Err(Stop::Error(format!("unmodelled external {name}")))
            }
        }
    }
    fn range(&self, st: &State, p: u64, n: u64) -> R<()> {
        if n == 0 || (st.mem.valid(p) && n < 1 << 28 && st.mem.valid(p + n)) { Ok(()) } else { Err(Stop::Error(format!("bad range {p:#x}+{n:#x}"))) }
    }
    fn lanes(&mut self, ty: &Ty, f: &mut dyn FnMut(&mut Self, u16, usize) -> R<V>) -> R<V> {
        match ty { Ty::Vec(e, n) => { let w = e.bits(); let mut el = vec![]; for i in 0..*n as usize { el.push(f(self, w, i)?); } Ok(vec_build(w, el)) } t => f(self, t.bits(), usize::MAX) }
    }
    fn intrinsic(&mut self, st: &mut State, s: &str, a: &[V], rty: &Ty, aty: &[Ty]) -> R<Option<V>> {
        let base = s.split('.').next().unwrap();
        let lane = |v: &V, w: u16, i: usize| if i == usize::MAX { v.clone() } else { vec_get(v, w, i) };
        macro_rules! k { ($i:expr) => { self.cval(st, &a[$i])? as u64 } }
        if s.starts_with("memcpy") || s.starts_with("memmove") { let (d, p, n) = (k!(0), k!(1), k!(2)); self.range(st, d, n)?; self.range(st, p, n)?; st.mem.copy(d, p, n as usize); return Ok(None); }
        if s.starts_with("memset") {
            let (d, n) = (k!(0), k!(2)); self.range(st, d, n)?;
            match &a[1] { V::S(e) => { for i in 0..n { st.mem.set_byte(d + i, 0, *e); } } v => { let c = v.conc().unwrap() as u8; st.mem.fill(d, c, n as usize) } }
            return Ok(None);
        }
        if s.starts_with("threadlocal.address") || s.starts_with("launder") || s.starts_with("strip") || s.starts_with("expect") || s.starts_with("ptrmask") && false || s.starts_with("ssa.copy") { return Ok(Some(a[0].clone())); }
        if s.starts_with("ptrmask") { let v = self.binop(Op::And, 64, &a[0], &a[1]); return Ok(Some(v)); }
        if s.starts_with("is.constant") { return Ok(Some(V::I(0))); }
        if s.starts_with("objectsize") { return Ok(Some(V::k(u128::MAX, rty.bits()))); }
        if s.starts_with("trap") || s.starts_with("debugtrap") || s.starts_with("ubsantrap") { return Err(Stop::Violation("abort:trap".into())); }
        if s.starts_with("stacksave") { return Ok(Some(V::I(st.sp))); }
        if s.starts_with("stackrestore") || s.starts_with("assume") || s.starts_with("va_") || s.starts_with("lifetime") || s.starts_with("invariant") || s.starts_with("experimental.noalias") { return Ok(Some(V::I(0))); }
        if s.starts_with("load.relative") { let (p, o) = (k!(0), k!(1)); let v = st.mem.load_c(p.wrapping_add(o), 4).unwrap_or(0); return Ok(Some(V::I(p.wrapping_add(sx(v, 32) as u64)))); }
        if let Some(r) = s.strip_prefix("vector.reduce.") {
            let (w, n) = match &aty[0] { Ty::Vec(e, n) => (e.bits(), *n as usize), _ => return Err(Stop::Error("reduce".into())) };
            let mut acc = vec_get(&a[0], w, 0);
            for i in 1..n {
                let x = vec_get(&a[0], w, i);
                acc = match r.split('.').next().unwrap() {
                    "add" => self.binop(Op::Add, w, &acc, &x), "mul" => self.binop(Op::Mul, w, &acc, &x), "and" => self.binop(Op::And, w, &acc, &x), "or" => self.binop(Op::Or, w, &acc, &x), "xor" => self.binop(Op::Xor, w, &acc, &x),
                    o @ ("umax" | "umin" | "smax" | "smin") => self.minmax(o, w, &acc, &x),
                    _ => return Err(Stop::Error(format!("intrinsic {s}"))),
                };
            }
            return Ok(Some(acc));
        }
        // op.with.overflow
        let mut parts = s.split('.');
        let p0 = parts.next().unwrap_or("");
        let p1 = parts.next().unwrap_or("");
        if p1 == "with" {
            let w = aty[0].bits();
            if let (Some(x), Some(y)) = (a[0].conc(), a[1].conc()) {
                let (r, o) = if w <= 64 {
                    match p0 {
                        "uadd" => { let r = x + y; (r, r > mask(w)) }
                        "usub" => (x.wrapping_sub(y), x < y),
                        "umul" => { let r = x * y; (r, r > mask(w)) }
                        "sadd" => { let r = sx(x, w) + sx(y, w); (r as u128, sx(r as u128 & mask(w), w) != r) }
                        "ssub" => { let r = sx(x, w) - sx(y, w); (r as u128, sx(r as u128 & mask(w), w) != r) }
                        _ => { let r = sx(x, w) * sx(y, w); (r as u128, sx(r as u128 & mask(w), w) != r) }
                    }
                } else { match p0 { "uadd" => x.overflowing_add(y), "usub" => x.overflowing_sub(y), "umul" => x.overflowing_mul(y), _ => return Err(Stop::Error(format!("intrinsic {s}"))) } };
                return Ok(Some(V::A(Rc::new(vec![V::k(r, w), V::I(o as u64)]))));
            }
            let (x, y) = (self.to_e(&a[0], w), self.to_e(&a[1], w));
            let (op, signed) = match p0 { "uadd" => (Op::Add, false), "usub" => (Op::Sub, false), "umul" => (Op::Mul, false), "sadd" => (Op::Add, true), "ssub" => (Op::Sub, true), _ => (Op::Mul, true) };
            let r = self.ar.bin(op, x, y);
            let o = if p0 == "usub" { self.ar.bin(Op::Ult, x, y) } else {
                let ww = w * 2;
                let (xx, yy) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                let rr = self.ar.bin(op, xx, yy);
                let re = if signed { self.ar.sext(r, ww) } else { self.ar.zext(r, ww) };
                let q = self.ar.bin(Op::Eq, rr, re);
                self.ar.not1(q)
            };
            return Ok(Some(V::A(Rc::new(vec![self.from_e(r), self.from_e(o)]))));
        }
        let v = match base {
            "umax" | "umin" | "smax" | "smin" => self.lanes(rty, &mut |me, w, i| { let (x, y) = (lane(&a[0], w, i), lane(&a[1], w, i)); Ok(me.minmax(base, w, &x, &y)) })?,
            "abs" => self.lanes(rty, &mut |me, w, i| { let x = lane(&a[0], w, i); let z = V::k(0, w); let n = me.binop(Op::Sub, w, &z, &x); let c = me.icmp(40, w, &x, &z); Ok(me.pick(&c, w, &n, &x)) })?,
            "uadd" | "usub" | "sadd" | "ssub" if p1 == "sat" => self.lanes(rty, &mut |me, w, i| {
                let (x, y) = (lane(&a[0], w, i), lane(&a[1], w, i));
                match base {
                    "uadd" => { let r = me.binop(Op::Add, w, &x, &y); let c = me.icmp(36, w, &r, &x); Ok(me.pick(&c, w, &V::k(u128::MAX, w), &r)) }
                    "usub" => { let r = me.binop(Op::Sub, w, &x, &y); let c = me.icmp(36, w, &x, &y); Ok(me.pick(&c, w, &V::k(0, w), &r)) }
                    _ => Err(Stop::Error("signed sat".into())),
                }
            })?,
            "ucmp" | "scmp" => { let w = aty[0].bits(); let (lt, gt) = if base == "ucmp" { (36, 34) } else { (40, 38) };
                let l = self.icmp(lt, w, &a[0], &a[1]); let g = self.icmp(gt, w, &a[0], &a[1]); let rw = rty.bits();
                let one = V::k(1, rw); let z = V::k(0, rw); let m1 = V::k(u128::MAX, rw);
                let t = self.pick(&g, rw, &one, &z); self.pick(&l, rw, &m1, &t) }
            "fshl" | "fshr" => self.lanes(rty, &mut |me, w, i| {
                let (x, y, z) = (lane(&a[0], w, i), lane(&a[1], w, i), lane(&a[2], w, i));
                let sh = match z.conc() { Some(k) => (k % w as u128) as u16, None => return Err(Stop::Error("symbolic funnel shift".into())) };
                let (hi, lo) = if base == "fshl" { (sh, w - sh) } else { (w - sh, sh) };
                if let (Some(p), Some(q)) = (x.conc(), y.conc()) {
                    let h = if hi >= w { 0 } else { p << hi }; let l = if lo >= w { 0 } else { q >> lo };
                    return Ok(V::k((h & mask(w)) | l, w));
                }
                let h = if hi >= w { V::k(0, w) } else { me.binop(Op::Shl, w, &x, &V::k(hi as u128, w)) };
                let l = if lo >= w { V::k(0, w) } else { me.binop(Op::LShr, w, &y, &V::k(lo as u128, w)) };
                Ok(me.binop(Op::Or, w, &h, &l))
            })?,
            "bswap" => { let w = rty.bits(); match &a[0] {
                V::S(e) => { let n = w / 8; let mut r: Option<E> = None; for i in 0..n { let b = self.ar.extract(*e, 8 * (n - 1 - i), 8); r = Some(match r { None => b, Some(l) => self.ar.concat(b, l) }); } self.from_e(r.unwrap()) }
                v => V::k(v.conc().unwrap().swap_bytes() >> (128 - w as u32), w) } }
            "bitreverse" => { let w = rty.bits(); let x = self.cval(st, &a[0])?; V::k(x.reverse_bits() >> (128 - w as u32), w) }
            "ctpop" | "ctlz" | "cttz" => { let mut r = vec![]; let (w, n) = match rty { Ty::Vec(e, n) => (e.bits(), *n as usize), t => (t.bits(), 0) };
                for i in 0..n.max(1) {
                    let x = if n == 0 { a[0].clone() } else { vec_get(&a[0], w, i) };
                    r.push(match &x {
                        V::S(e) => {
                            // bitwise expansion
                            let e = *e;
                            let mut acc = if base == "ctpop" { self.ar.konst(0, w) } else { self.ar.konst(w as u128, w) };
                            if base == "ctpop" { for j in 0..w { let b = self.ar.extract(e, j, 1); let z = self.ar.zext(b, w); acc = self.ar.bin(Op::Add, acc, z); } }
                            else if base == "cttz" { for j in (0..w).rev() { let b = self.ar.extract(e, j, 1); let kk = self.ar.konst(j as u128, w); acc = self.ar.ite(b, kk, acc); } }
                            else { for j in 0..w { let b = self.ar.extract(e, j, 1); let kk = self.ar.konst((w - 1 - j) as u128, w); acc = self.ar.ite(b, kk, acc); } }
                            self.from_e(acc)
                        }
                        v => { let c = v.conc().unwrap(); let q = match base { "ctpop" => c.count_ones(), "cttz" => if c == 0 { w as u32 } else { c.trailing_zeros() }, _ => c.leading_zeros() - (128 - w as u32) }; V::k(q as u128, w) }
                    });
                }
                if n == 0 { r.pop().unwrap() } else { vec_build(w, r) } }
            _ => return Err(Stop::Error(format!("unmodelled intrinsic llvm.{s}"))),
        };
        Ok(Some(v))
    }
    fn pick(&mut self, c: &V, w: u16, a: &V, b: &V) -> V {
        match c { V::S(e) => { let (x, y) = (self.to_e(a, w), self.to_e(b, w)); let r = self.ar.ite(*e, x, y); self.from_e(r) } k => if k.conc() == Some(1) { a.clone() } else { b.clone() } }
    }
    fn minmax(&mut self, o: &str, w: u16, a: &V, b: &V) -> V {
        let p = match o { "umax" => 34, "umin" => 36, "smax" => 38, _ => 40 };
        let c = self.icmp(p, w, a, b);
        self.pick(&c, w, a, b)
    }
}
