//! z3 back end (bit-vector theory) plus independence slicing and a query cache.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_zero_ext(c: P, w: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, w: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {e}"); std::process::abort(); }

pub type Model = HashMap<u32, u128>;

pub struct Solver {
    ctx: P,
    s: P,
    hard: P,
    one: P,
    zero: P,
    asts: Vec<P>,
    cache: HashMap<Vec<E>, Option<Model>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(ctx, l.as_ptr());
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let hard = Z3_mk_solver_for_logic(ctx, sym);
            Z3_solver_inc_ref(ctx, hard);
            let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), 60000);
            Z3_solver_set_params(ctx, hard, p);
            let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), 3000);
            Z3_solver_set_params(ctx, s, p);
            let so = Z3_mk_bv_sort(ctx, 1); Z3_inc_ref(ctx, so);
            let num = |t: &str| { let t = CString::new(t).unwrap(); let n = Z3_mk_numeral(ctx, t.as_ptr(), so); Z3_inc_ref(ctx, n); n };
            let (one, zero) = (num("1"), num("0"));
            Solver { ctx, s, hard, one, zero, asts: vec![], cache: HashMap::new(), queries: 0, cache_hits: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0 }
        }
    }
    fn tr(&mut self, ar: &Arena, e: E) -> P {
        // iterative post-order
        if self.asts.len() < ar.nodes.len() { self.asts.resize(ar.nodes.len(), std::ptr::null_mut()); }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.asts[x as usize].is_null() { st.pop(); continue; }
            let n = &ar.nodes[x as usize];
            let kids: &[E] = &match n.op {
                Op::Const | Op::Var => [0, 0, 0],
                Op::ZExt | Op::SExt | Op::Extract => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            let mut ready = true;
            for &k in kids { if k != 0 && self.asts[k as usize].is_null() { st.push(k); ready = false; } }
            if !ready { continue; }
            let c = self.ctx;
            let a = self.asts[n.a as usize]; let b = self.asts[n.b as usize]; let d = self.asts[n.c as usize];
            let wa = ar.w(n.a);
            let r = unsafe {
                // every intermediate term is pinned for the life of the context
                let pin = |p: P| { Z3_inc_ref(c, p); p };
                let (one, zero) = (self.one, self.zero);
                let tobv = |p: P| { let p = pin(p); let r = Z3_mk_ite(c, p, one, zero); r };
                let bv = |w: u16| pin(Z3_mk_bv_sort(c, w as c_uint));
                pin(match n.op {
                    Op::Const => { let s = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), bv(n.w)) }
                    Op::Var => { let s = CString::new(format!("v{}", n.k)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), bv(n.w)) }
                    Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Eq => tobv(Z3_mk_eq(c, a, b)), Op::Ult => tobv(Z3_mk_bvult(c, a, b)), Op::Ule => tobv(Z3_mk_bvule(c, a, b)),
                    Op::Slt => tobv(Z3_mk_bvslt(c, a, b)), Op::Sle => tobv(Z3_mk_bvsle(c, a, b)),
                    Op::Ite => Z3_mk_ite(c, pin(Z3_mk_eq(c, a, one)), b, d),
                    Op::ZExt => Z3_mk_zero_ext(c, (n.w - wa) as c_uint, a),
                    Op::SExt => Z3_mk_sign_ext(c, (n.w - wa) as c_uint, a),
                    Op::Extract => Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a),
                    Op::Concat => Z3_mk_concat(c, a, b),
                })
            };
            self.asts[x as usize] = r;
            st.pop();
        }
        self.asts[e as usize]
    }
    /// Constraints of `pc` sharing variables (transitively) with `c`.
    pub fn slice(ar: &mut Arena, pc: &[E], c: E) -> Vec<E> {
        let mut vs: HashSet<u32> = ar.vars(c).iter().copied().collect();
        let mut out: Vec<E> = vec![c];
        let mut rest: Vec<E> = pc.to_vec();
        loop {
            let mut changed = false;
            let mut next = vec![];
            for e in rest {
                let v = ar.vars(e);
                if v.iter().any(|x| vs.contains(x)) { for x in v.iter() { vs.insert(*x); } out.push(e); changed = true; } else { next.push(e); }
            }
            rest = next;
            if !changed { break; }
        }
        out.sort_unstable(); out.dedup();
        out
    }
    /// Is pc ∧ c satisfiable? Returns a model over the relevant variables.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], c: E) -> Result<Option<Model>, String> {
        if let Some(k) = ar.as_const(c) { return Ok(if k == 1 { Some(Model::new()) } else { None }); }
        let q = Self::slice(ar, pc, c);
        if let Some(r) = self.cache.get(&q) { self.cache_hits += 1; return Ok(r.clone()); }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let one = self.one;
            let mut used = self.s;
            let mut verdict = 0;
            for s in [self.s, self.hard] {
                used = s;
                Z3_solver_reset(self.ctx, s);
                for &e in &q {
                    let a = self.tr(ar, e);
                    let q = Z3_mk_eq(self.ctx, a, one);
                    Z3_inc_ref(self.ctx, q);
                    Z3_solver_assert(self.ctx, s, q);
                    Z3_dec_ref(self.ctx, q);
                }
                verdict = Z3_solver_check(self.ctx, s);
                if verdict != 0 { break; }
            }
            match verdict {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, used);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vs: Vec<u32> = vec![];
                    for &e in &q { vs.extend(ar.vars(e).iter()); }
                    vs.sort_unstable(); vs.dedup();
                    let mut model = Model::new();
                    for v in vs {
                        let Some(e) = ar.var_node(v) else { continue };
                        let k = self.tr(ar, e);
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, k, true, &mut out);
                        Z3_inc_ref(self.ctx, out);
                        let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_string_lossy().into_owned();
                        Z3_dec_ref(self.ctx, out);
                        model.insert(v, st.parse::<u128>().unwrap());
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Ok(Some(model))
                }
                -1 => { self.unsat += 1; Ok(None) }
                _ => { self.unknown += 1; Err("solver returned unknown".to_string()) }
            }
        };
        self.time += t0.elapsed().as_secs_f64();
        let r = r?;
        self.cache.insert(q, r.clone());
        Ok(r)
    }
}
