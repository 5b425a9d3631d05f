//! Lowering of LLVM IR (rustc's whole-program bitcode) to a compact register form.
use crate::expr::{mask, Op, E};
use crate::llvm::*;
use crate::mem::Mem;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, F32, F64, Vec(Rc<Ty>, u32), Struct(Rc<Vec<(u64, Ty)>>, u64), Array(Rc<Ty>, u64, u64), Other }
impl Ty {
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {self:?}") }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

#[derive(Clone, Debug)]
pub enum V { I(u64), W(u64, u64), S(E), A(Rc<Vec<V>>) }
impl V {
    #[inline] pub fn k(v: u128, w: u16) -> V { let v = v & mask(w); if w <= 64 { V::I(v as u64) } else { V::W(v as u64, (v >> 64) as u64) } }
    #[inline] pub fn conc(&self) -> Option<u128> {
        match self { V::I(x) => Some(*x as u128), V::W(l, h) => Some((*h as u128) << 64 | *l as u128), _ => None }
    }
}

/// Operand: register number, or (high bit) constant-table index.
pub type Opd = u32;
pub const CONST: u32 = 1 << 31;
pub type Reg = u32;

#[derive(Debug, Clone)]
pub struct Edge { pub target: u32, pub moves: Box<[(Reg, Opd)]> }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, Mov }

#[derive(Debug, Clone)]
pub enum Callee { Func(u32), Ext(u32), Ind(Opd) }

#[derive(Debug, Clone)]
pub enum I {
    Bin { op: Op, w: u16, d: Reg, a: Opd, b: Opd },
    VBin { op: Op, w: u16, n: u32, d: Reg, a: Opd, b: Opd },
    ICmp { p: u8, w: u16, d: Reg, a: Opd, b: Opd },
    VICmp { p: u8, w: u16, n: u32, d: Reg, a: Opd, b: Opd },
    Cast { k: CastK, fw: u16, tw: u16, d: Reg, a: Opd },
    VCast { k: CastK, fw: u16, tw: u16, n: u32, d: Reg, a: Opd },
    BitCast { f: Ty, t: Ty, d: Reg, a: Opd },
    LoadI { d: Reg, p: Opd, n: u8, w: u16 },
    Load { d: Reg, p: Opd, ty: Ty },
    StoreI { v: Opd, p: Opd, n: u8, w: u16 },
    Store { v: Opd, p: Opd, ty: Ty },
    Gep { d: Reg, base: Opd, off: i64, idx: Box<[(Opd, i64, u16)]> },
    Select { d: Reg, c: Opd, a: Opd, b: Opd, ty: Ty, vc: bool },
    Call { d: Reg, has_ret: bool, callee: Callee, args: Box<[Opd]>, rty: Ty, aty: Box<[Ty]>, normal: Option<Box<Edge>> },
    Br(Box<Edge>),
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { v: Opd, w: u16, cases: Box<[(u128, Edge)]>, def: Box<Edge> },
    Ret(Option<Opd>),
    Unreachable,
    Extract { d: Reg, a: Opd, path: Box<[u32]> },
    Insert { d: Reg, a: Opd, v: Opd, path: Box<[u32]> },
    ExtractEl { d: Reg, a: Opd, i: Opd, ty: Ty },
    InsertEl { d: Reg, a: Opd, v: Opd, i: Opd, ty: Ty },
    Shuffle { d: Reg, a: Opd, b: Opd, mask: Box<[i32]>, ity: Ty, oty: Ty },
    Rmw { op: u8, d: Reg, p: Opd, v: Opd, w: u16 },
    CmpXchg { d: Reg, p: Opd, c: Opd, v: Opd, w: u16 },
    Alloca { d: Reg, size: u64, align: u64, count: Opd },
    Mov { d: Reg, a: Opd },
    Unsupported(Box<str>),
}

pub struct Func { pub name: String, pub nregs: u32, pub nargs: u32, pub code: Vec<I>, pub consts: Vec<V> }

pub const FUNC_BASE: u64 = 0x0010_0000;

pub struct Module {
    pub api: Api,
    td: Ref,
    pub fnames: Vec<String>,
    frefs: Vec<Ref>,
    fdecl: Vec<bool>,
    hook: Vec<bool>,
    lowered: Vec<Option<Rc<Func>>>,
    fidx: HashMap<usize, u32>,
    pub by_name: HashMap<String, u32>,
    gaddr: HashMap<usize, u64>,
    tycache: HashMap<usize, Ty>,
    pub init_mem: Mem,
    pub data_end: u64,
}

impl Module {
    pub fn load(llvm: &str, bc: &str) -> Result<Module, String> {
        let api = Api::load(llvm)?;
        let m = api.load_module(bc)?;
        let td = api.LLVMGetModuleDataLayout(m);
        let mut md = Module { api, td, fnames: vec![], frefs: vec![], fdecl: vec![], hook: vec![], lowered: vec![], fidx: HashMap::new(), by_name: HashMap::new(), gaddr: HashMap::new(), tycache: HashMap::new(), init_mem: Mem::new(), data_end: 0 };
        let mut f = md.api.LLVMGetFirstFunction(m);
        while !f.is_null() {
            let i = md.frefs.len() as u32;
            let n = md.api.name(f);
            md.fidx.insert(f as usize, i);
            md.gaddr.insert(f as usize, FUNC_BASE + 16 * i as u64);
            md.by_name.insert(n.clone(), i);
            md.hook.push(n.contains("panicking9panic_fmt") || n.contains("panic_nounwind") || n.contains("handle_alloc_error") || n.contains("begin_panic") || n.contains("___rust_abort"));
            md.fnames.push(n); md.frefs.push(f); md.fdecl.push(md.api.LLVMIsDeclaration(f) != 0); md.lowered.push(None);
            f = md.api.LLVMGetNextFunction(f);
        }
        let mut addr = (FUNC_BASE + 16 * md.frefs.len() as u64 + 0xffff) & !0xffff;
        let mut gs = vec![];
        let mut g = md.api.LLVMGetFirstGlobal(m);
        while !g.is_null() {
            let vt = md.api.LLVMGlobalGetValueType(g);
            let sz = md.api.LLVMABISizeOfType(td, vt);
            let al = (md.api.LLVMGetAlignment(g) as u64).max(16);
            addr = (addr + al - 1) & !(al - 1);
            md.gaddr.insert(g as usize, addr);
            gs.push((g, addr));
            addr += sz.max(1) + 16;
            g = md.api.LLVMGetNextGlobal(g);
        }
        let mut a = md.api.LLVMGetFirstGlobalAlias(m);
        while !a.is_null() {
            let t = md.api.LLVMAliasGetAliasee(a);
            let v = md.konst(t).conc().unwrap() as u64;
            md.gaddr.insert(a as usize, v);
            a = md.api.LLVMGetNextGlobalAlias(a);
        }
        for (g, at) in gs {
            let init = md.api.LLVMGetInitializer(g);
            if !init.is_null() {
                let ty = md.ty(md.api.LLVMTypeOf(init));
                let mut mem = std::mem::replace(&mut md.init_mem, Mem::new());
                md.store_init(&mut mem, at, init, &ty);
                md.init_mem = mem;
            }
        }
        md.data_end = (addr + 0xffff) & !0xffff;
        Ok(md)
    }
    pub fn func_of_addr(&self, a: u64) -> Option<u32> {
        if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 { return None; }
        let i = (a - FUNC_BASE) / 16;
        if i < self.frefs.len() as u64 { Some(i as u32) } else { None }
    }
    /// Functions with a body that the executor models itself.
    pub fn hooked(&self, i: u32) -> bool { self.hook[i as usize] }
    pub fn is_decl(&self, i: u32) -> bool { self.fdecl[i as usize] }
    pub fn ty(&mut self, t: Ref) -> Ty {
        if let Some(x) = self.tycache.get(&(t as usize)) { return x.clone(); }
        let r = match self.api.LLVMGetTypeKind(t) {
            0 => Ty::Void, 2 => Ty::F32, 3 => Ty::F64,
            8 => Ty::Int(self.api.LLVMGetIntTypeWidth(t) as u16),
            10 => {
                let n = self.api.LLVMCountStructElementTypes(t);
                let mut v = vec![];
                for i in 0..n { let et = self.api.LLVMStructGetTypeAtIndex(t, i); let e = self.ty(et); v.push((self.api.LLVMOffsetOfElement(self.td, t, i), e)); }
                Ty::Struct(Rc::new(v), self.api.LLVMABISizeOfType(self.td, t))
            }
            11 => { let et = self.api.LLVMGetElementType(t); let e = self.ty(et); Ty::Array(Rc::new(e), self.api.LLVMGetArrayLength2(t), self.api.LLVMABISizeOfType(self.td, et)) }
            12 => Ty::Ptr,
            13 => { let et = self.api.LLVMGetElementType(t); let e = self.ty(et); Ty::Vec(Rc::new(e), self.api.LLVMGetVectorSize(t)) }
            _ => Ty::Other,
        };
        self.tycache.insert(t as usize, r.clone());
        r
    }
    fn vty(&mut self, v: Ref) -> Ty { let t = self.api.LLVMTypeOf(v); self.ty(t) }
    fn konst(&mut self, v: Ref) -> V { let ty = self.vty(v); self.konst_ty(v, &ty) }
    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Int(w) => V::k(0, *w),
            Ty::Ptr | Ty::F32 | Ty::F64 => V::I(0),
            Ty::Vec(e, n) => { let b = e.bits() as u32 * n; if b <= 64 { V::I(0) } else if b <= 128 { V::W(0, 0) } else { V::A(Rc::new(vec![Self::zero(e); *n as usize])) } }
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|(_, t)| Self::zero(t)).collect())),
            Ty::Array(e, n, _) => V::A(Rc::new(vec![Self::zero(e); *n as usize])),
            _ => V::I(0),
        }
    }
    fn konst_ty(&mut self, v: Ref, ty: &Ty) -> V {
        // value kinds: 3 Function,4 Alias,6 GlobalVar,8 ConstExpr,9 Array,10 Struct,11 Vector,12 Undef,13 AggZero,14 DataArray,15 DataVector,16 Int,17 FP,18 NullPtr,...
        if let Some(a) = self.gaddr.get(&(v as usize)) { return V::I(*a); }
        let k = self.api.LLVMGetValueKind(v);
        match k {
            // LLVMValueKind numbering
            18 => match ty { Ty::Int(w) => {
                if *w <= 64 { V::I((self.api.LLVMConstIntGetZExtValue(v)) & mask(*w) as u64) } else {
                    let s = self.api.print(v); let t = s.rsplit(' ').next().unwrap();
                    V::k(t.parse::<i128>().map(|x| x as u128).or_else(|_| t.parse::<u128>()).expect("i128 const"), *w)
                } }
                Ty::Vec(e, n) => { let w = e.bits(); let x = self.api.LLVMConstIntGetZExtValue(v) as u128; vec_build(w, vec![V::k(x, w); *n as usize]) }
                _ => V::I(0) },
            19 => { let mut l = 0; let d = self.api.LLVMConstRealGetDouble(v, &mut l); match ty { Ty::F32 => V::I((d as f32).to_bits() as u64), _ => V::I(d.to_bits()) } }
            _ => {
                let op = if k == 10 || k == 9 || k == 8 || k == 7 { self.api.LLVMGetConstOpcode_safe(v, k) } else { 0 };
                if op != 0 { return self.konst_expr(v, op, ty); }
                match ty {
                    Ty::Struct(f, _) => { let f = f.clone(); let mut o = vec![]; for (i, (_, t)) in f.iter().enumerate() { let e = self.api.LLVMGetAggregateElement(v, i as u32); o.push(if e.is_null() { Self::zero(t) } else { self.konst_ty(e, t) }); } V::A(Rc::new(o)) }
                    Ty::Array(e, n, _) => { let e = e.clone(); let mut o = Vec::with_capacity(*n as usize); for i in 0..*n { let x = self.api.LLVMGetAggregateElement(v, i as u32); o.push(if x.is_null() { Self::zero(&e) } else { self.konst_ty(x, &e) }); } V::A(Rc::new(o)) }
                    Ty::Vec(e, n) => { let e = e.clone(); let mut o = vec![]; for i in 0..*n { let x = self.api.LLVMGetAggregateElement(v, i); o.push(if x.is_null() { Self::zero(&e) } else { self.konst_ty(x, &e) }); } vec_build(e.bits(), o) }
                    _ => Self::zero(ty),
                }
            }
        }
    }
    fn store_init(&mut self, mem: &mut Mem, at: u64, v: Ref, ty: &Ty) {
        if self.api.LLVMGetValueKind(v) == 16 {
            let mut n = 0usize;
            let p = self.api.LLVMGetRawDataValues(v, &mut n);
            mem.write(at, unsafe { std::slice::from_raw_parts(p as *const u8, n) });
            return;
        }
        if self.api.LLVMGetValueKind(v) == 15 { return; } // zeroinitializer
        match ty {
            Ty::Struct(f, _) if !self.gaddr.contains_key(&(v as usize)) => { let f = f.clone(); for (i, (o, t)) in f.iter().enumerate() { let e = self.api.LLVMGetAggregateElement(v, i as u32); if !e.is_null() { self.store_init(mem, at + o, e, t); } } }
            Ty::Array(e, n, sz) => { let e = e.clone(); for i in 0..*n { let x = self.api.LLVMGetAggregateElement(v, i as u32); if !x.is_null() { self.store_init(mem, at + i * sz, x, &e); } } }
            _ => { let k = self.konst_ty(v, ty); store_conc(mem, at, &k, ty); }
        }
    }
    fn konst_expr(&mut self, v: Ref, op: i32, ty: &Ty) -> V {
        let n = self.api.LLVMGetNumOperands(v);
        let ops: Vec<Ref> = (0..n as u32).map(|i| self.api.LLVMGetOperand(v, i)).collect();
        match op {
            29 => { // GEP
                let base = self.konst(ops[0]).conc().unwrap() as u64;
                let st = self.api.LLVMGetGEPSourceElementType(v);
                let idx: Vec<i64> = ops[1..].iter().map(|o| { let w = self.vty(*o).bits(); crate::expr::sx(self.konst(*o).conc().unwrap(), w) as i64 }).collect();
                V::I(base.wrapping_add(self.gep_const(st, &idx) as u64))
            }
            39 | 40 | 41 | 60 => { let x = self.konst(ops[0]); V::k(x.conc().unwrap(), ty.bits()) }
            30 => { let x = self.konst(ops[0]); V::k(x.conc().unwrap(), ty.bits()) }
            8 | 10 => { let a = self.konst(ops[0]).conc().unwrap(); let b = self.konst(ops[1]).conc().unwrap(); V::k(if op == 8 { a.wrapping_add(b) } else { a.wrapping_sub(b) }, ty.bits()) }
            _ => panic!("constexpr op {op}: {}", self.api.print(v)),
        }
    }
    fn gep_const(&mut self, st: Ref, idx: &[i64]) -> i64 {
        let mut off = idx[0].wrapping_mul(self.api.LLVMABISizeOfType(self.td, st) as i64);
        let mut cur = st;
        for &i in &idx[1..] {
            if self.api.LLVMGetTypeKind(cur) == 10 { off += self.api.LLVMOffsetOfElement(self.td, cur, i as u32) as i64; cur = self.api.LLVMStructGetTypeAtIndex(cur, i as u32); }
            else { cur = self.api.LLVMGetElementType(cur); off += i * self.api.LLVMABISizeOfType(self.td, cur) as i64; }
        }
        off
    }
    pub fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.lowered[i as usize] { return f.clone(); }
        let f = Rc::new(Lower::run(self, i));
        self.lowered[i as usize] = Some(f.clone());
        f
    }
    pub fn lowered_names(&self) -> Vec<&str> { (0..self.fnames.len()).filter(|&i| self.lowered[i].is_some()).map(|i| self.fnames[i].as_str()).collect() }
    pub fn lowered_size(&self) -> usize { self.lowered.iter().flatten().map(|f| f.code.len()).sum() }
}

impl Api {
    #[allow(non_snake_case)]
    fn LLVMGetConstOpcode_safe(&self, v: Ref, k: i32) -> i32 {
        // only ConstantExpr (kind 10 in this LLVM's enumeration) has an opcode
        if k == 10 { self.LLVMGetConstOpcode(v) } else { 0 }
    }
}

/// Canonical vector value: packed if all concrete and at most 128 bits.
pub fn vec_build(w: u16, el: Vec<V>) -> V {
    let tot = w as usize * el.len();
    if tot <= 128 && el.iter().all(|e| e.conc().is_some()) {
        let mut r = 0u128;
        for (i, e) in el.iter().enumerate() { r |= (e.conc().unwrap() & mask(w)) << (i * w as usize); }
        return V::k(r, tot as u16);
    }
    V::A(Rc::new(el))
}
pub fn vec_get(v: &V, w: u16, i: usize) -> V {
    match v { V::A(x) => x[i].clone(), _ => V::k(v.conc().unwrap() >> (i * w as usize), w) }
}

pub fn store_conc(m: &mut Mem, at: u64, v: &V, ty: &Ty) {
    match ty {
        Ty::Int(w) => m.store_c(at, v.conc().unwrap(), (*w as usize).div_ceil(8)),
        Ty::Ptr | Ty::F64 => m.store_c(at, v.conc().unwrap(), 8),
        Ty::F32 => m.store_c(at, v.conc().unwrap(), 4),
        Ty::Vec(e, n) => { let w = e.bits(); for i in 0..*n as usize { m.store_c(at + (i * w as usize / 8) as u64, vec_get(v, w, i).conc().unwrap(), (w as usize).div_ceil(8)); } }
        Ty::Struct(f, _) => { if let V::A(x) = v { for (i, (o, t)) in f.iter().enumerate() { store_conc(m, at + o, &x[i], t); } } }
        Ty::Array(e, _, s) => { if let V::A(x) = v { for (i, y) in x.iter().enumerate() { store_conc(m, at + i as u64 * s, y, e); } } }
        _ => {}
    }
}

struct Lower<'a> { m: &'a mut Module, regs: HashMap<usize, u32>, nregs: u32, consts: Vec<V>, cmap: HashMap<usize, u32> }

impl<'a> Lower<'a> {
    fn run(m: &mut Module, fi: u32) -> Func {
        let f = m.frefs[fi as usize];
        let mut l = Lower { m, regs: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new() };
        let na = l.m.api.LLVMCountParams(f);
        for i in 0..na { let p = l.m.api.LLVMGetParam(f, i); l.regs.insert(p as usize, l.nregs); l.nregs += 1; }
        let mut blocks = vec![];
        let mut b = l.m.api.LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            blocks.push(b);
            let mut ins = l.m.api.LLVMGetFirstInstruction(b);
            while !ins.is_null() { l.regs.insert(ins as usize, l.nregs); l.nregs += 1; ins = l.m.api.LLVMGetNextInstruction(ins); }
            b = l.m.api.LLVMGetNextBasicBlock(b);
        }
        let bidx: HashMap<usize, u32> = blocks.iter().enumerate().map(|(i, b)| (*b as usize, i as u32)).collect();
        let mut code: Vec<I> = vec![];
        let mut start = vec![0u32; blocks.len()];
        for (i, &b) in blocks.iter().enumerate() {
            start[i] = code.len() as u32;
            let mut ins = l.m.api.LLVMGetFirstInstruction(b);
            while !ins.is_null() {
                l.instr(ins, b, &bidx, &mut code);
                ins = l.m.api.LLVMGetNextInstruction(ins);
            }
        }
        // patch edge targets (block index -> code index)
        for i in code.iter_mut() {
            match i {
                I::Br(e) => e.target = start[e.target as usize],
                I::CondBr { t, f, .. } => { t.target = start[t.target as usize]; f.target = start[f.target as usize]; }
                I::Switch { cases, def, .. } => { for (_, e) in cases.iter_mut() { e.target = start[e.target as usize]; } def.target = start[def.target as usize]; }
                I::Call { normal: Some(e), .. } => e.target = start[e.target as usize],
                _ => {}
            }
        }
        let name = l.m.fnames[fi as usize].clone();
        Func { name, nregs: l.nregs, nargs: na, code, consts: l.consts }
    }
    fn op(&mut self, v: Ref) -> Opd {
        if let Some(r) = self.regs.get(&(v as usize)) { return *r; }
        if let Some(c) = self.cmap.get(&(v as usize)) { return *c | CONST; }
        let k = self.m.konst(v);
        let i = self.consts.len() as u32;
        self.consts.push(k);
        self.cmap.insert(v as usize, i);
        i | CONST
    }
    fn edge(&mut self, from: Ref, to: Ref, bidx: &HashMap<usize, u32>) -> Edge {
        let mut moves = vec![];
        let mut ins = self.m.api.LLVMGetFirstInstruction(to);
        while !ins.is_null() && self.m.api.LLVMGetInstructionOpcode(ins) == 44 {
            let n = self.m.api.LLVMCountIncoming(ins);
            for i in 0..n {
                if self.m.api.LLVMGetIncomingBlock(ins, i) == from {
                    let v = self.m.api.LLVMGetIncomingValue(ins, i);
                    let o = self.op(v);
                    let d = self.regs[&(ins as usize)];
                    if o != d { moves.push((d, o)); }
                    break;
                }
            }
            ins = self.m.api.LLVMGetNextInstruction(ins);
        }
        Edge { target: bidx[&(to as usize)], moves: moves.into() }
    }
    fn o(&mut self, ins: Ref, i: u32) -> Opd { let v = self.m.api.LLVMGetOperand(ins, i); self.op(v) }
    fn oty(&mut self, ins: Ref, i: u32) -> Ty { let v = self.m.api.LLVMGetOperand(ins, i); self.m.vty(v) }
    fn instr(&mut self, ins: Ref, blk: Ref, bidx: &HashMap<usize, u32>, code: &mut Vec<I>) {
        let d = self.regs[&(ins as usize)];
        let opc = self.m.api.LLVMGetInstructionOpcode(ins);
        let ty = self.m.vty(ins);
        let uns = |s: &Self| I::Unsupported(s.m.api.print(ins).into());
        let i = match opc {
            1 => { let n = self.m.api.LLVMGetNumOperands(ins); if n > 0 { let o = self.o(ins, 0); I::Ret(Some(o)) } else { I::Ret(None) } }
            2 | 70 | 71 | 72 => {
                let n = self.m.api.LLVMGetNumSuccessors(ins);
                if n == 1 { let t = self.m.api.LLVMGetSuccessor(ins, 0); I::Br(Box::new(self.edge(blk, t, bidx))) }
                else { let c = self.o(ins, 0); let t = self.m.api.LLVMGetSuccessor(ins, 0); let f = self.m.api.LLVMGetSuccessor(ins, 1);
                    I::CondBr { c, t: Box::new(self.edge(blk, t, bidx)), f: Box::new(self.edge(blk, f, bidx)) } }
            }
            3 => {
                let v = self.o(ins, 0); let w = self.oty(ins, 0).bits();
                let n = self.m.api.LLVMGetNumSuccessors(ins);
                let dd = self.m.api.LLVMGetSwitchDefaultDest(ins);
                let def = Box::new(self.edge(blk, dd, bidx));
                let mut cases = vec![];
                for i in 1..n { let cv = self.m.api.LLVMGetSwitchCaseValue(ins, i); let k = self.m.konst(cv).conc().unwrap(); let t = self.m.api.LLVMGetSuccessor(ins, i); cases.push((k, self.edge(blk, t, bidx))); }
                I::Switch { v, w, cases: cases.into(), def }
            }
            7 => I::Unreachable,
            8 | 10 | 12 | 14 | 15 | 17 | 18 | 20 | 21 | 22 | 23 | 24 | 25 => {
                let op = match opc { 8 => Op::Add, 10 => Op::Sub, 12 => Op::Mul, 14 => Op::UDiv, 15 => Op::SDiv, 17 => Op::URem, 18 => Op::SRem, 20 => Op::Shl, 21 => Op::LShr, 22 => Op::AShr, 23 => Op::And, 24 => Op::Or, _ => Op::Xor };
                let a = self.o(ins, 0); let b = self.o(ins, 1);
                match &ty { Ty::Int(w) => I::Bin { op, w: *w, d, a, b }, Ty::Vec(e, n) => I::VBin { op, w: e.bits(), n: *n, d, a, b }, _ => uns(self) }
            }
            26 => {
                let at = self.m.api.LLVMGetAllocatedType(ins);
                let size = self.m.api.LLVMABISizeOfType(self.m.td, at);
                let align = (self.m.api.LLVMGetAlignment(ins) as u64).max(1);
                let count = self.o(ins, 0);
                I::Alloca { d, size, align, count }
            }
            27 => { let p = self.o(ins, 0); match &ty { Ty::Int(w) if *w <= 128 => I::LoadI { d, p, n: w.div_ceil(8) as u8, w: *w }, Ty::Ptr | Ty::F64 => I::LoadI { d, p, n: 8, w: 64 }, Ty::F32 => I::LoadI { d, p, n: 4, w: 32 }, _ => I::Load { d, p, ty } } }
            28 => { let v = self.o(ins, 0); let p = self.o(ins, 1); let t = self.oty(ins, 0); match &t { Ty::Int(w) if *w <= 128 => I::StoreI { v, p, n: w.div_ceil(8) as u8, w: *w }, Ty::Ptr | Ty::F64 => I::StoreI { v, p, n: 8, w: 64 }, Ty::F32 => I::StoreI { v, p, n: 4, w: 32 }, _ => I::Store { v, p, ty: t } } }
            29 => {
                let base = self.o(ins, 0);
                let mut cur = self.m.api.LLVMGetGEPSourceElementType(ins);
                let n = self.m.api.LLVMGetNumOperands(ins) as u32;
                let mut off = 0i64; let mut idx = vec![];
                for k in 1..n {
                    let o = self.o(ins, k);
                    let w = match self.oty(ins, k) { Ty::Int(w) => w, _ => { code.push(uns(self)); return; } };
                    let scale;
                    if k == 1 { scale = self.m.api.LLVMABISizeOfType(self.m.td, cur) as i64; }
                    else if self.m.api.LLVMGetTypeKind(cur) == 10 {
                        let c = self.consts[(o & !CONST) as usize].conc().unwrap() as u32;
                        off += self.m.api.LLVMOffsetOfElement(self.m.td, cur, c) as i64;
                        cur = self.m.api.LLVMStructGetTypeAtIndex(cur, c);
                        continue;
                    } else { cur = self.m.api.LLVMGetElementType(cur); scale = self.m.api.LLVMABISizeOfType(self.m.td, cur) as i64; }
                    if o & CONST != 0 { let c = crate::expr::sx(self.consts[(o & !CONST) as usize].conc().unwrap(), w) as i64; off = off.wrapping_add(c.wrapping_mul(scale)); }
                    else { idx.push((o, scale, w)); }
                }
                I::Gep { d, base, off, idx: idx.into() }
            }
            30 | 31 | 32 | 39 | 40 | 60 => {
                let k = match opc { 30 => CastK::Trunc, 31 => CastK::ZExt, 32 => CastK::SExt, _ => CastK::Mov };
                let a = self.o(ins, 0); let ft = self.oty(ins, 0);
                match (&ft, &ty) {
                    (Ty::Vec(fe, n), Ty::Vec(te, _)) => I::VCast { k, fw: fe.bits(), tw: te.bits(), n: *n, d, a },
                    _ => { let (fw, tw) = (ft.bits(), ty.bits()); let k = if k == CastK::Mov && fw != tw { if fw > tw { CastK::Trunc } else { CastK::ZExt } } else { k }; I::Cast { k, fw, tw, d, a } }
                }
            }
            41 => { let a = self.o(ins, 0); let ft = self.oty(ins, 0); I::BitCast { f: ft, t: ty, d, a } }
            42 => {
                let p = self.m.api.LLVMGetICmpPredicate(ins) as u8;
                let a = self.o(ins, 0); let b = self.o(ins, 1);
                match self.oty(ins, 0) { Ty::Vec(e, n) => I::VICmp { p, w: e.bits(), n, d, a, b }, t => I::ICmp { p, w: t.bits(), d, a, b } }
            }
            44 => return, // phi: handled on edges
            45 | 5 => {
                let cv = self.m.api.LLVMGetCalledValue(ins);
                let n = self.m.api.LLVMGetNumArgOperands(ins);
                let normal = if opc == 5 { let nd = self.m.api.LLVMGetNormalDest(ins); Some(Box::new(self.edge(blk, nd, bidx))) } else { None };
                let callee = if let Some(&fi) = self.m.fidx.get(&(cv as usize)) {
                    if self.m.fdecl[fi as usize] { Callee::Ext(fi) } else { Callee::Func(fi) }
                } else if self.m.api.LLVMGetValueKind(cv) == 24 || self.m.api.print_ty(self.m.api.LLVMTypeOf(cv)) != "ptr" {
                    // inline asm: compiler barriers and cpuid-style probes only; results read as zero
                    let z = Module::zero(&ty); let i = self.consts.len() as u32; self.consts.push(z); code.push(I::Mov { d, a: i | CONST }); return;
                } else { let o = self.op(cv); Callee::Ind(o) };
                let mut args = vec![]; let mut aty = vec![];
                for i in 0..n {
                    let t = self.oty(ins, i);
                    // metadata operands and the like
                    if t == Ty::Other { args.push({ let i = self.consts.len() as u32; self.consts.push(V::I(0)); i | CONST }); aty.push(t); continue; }
                    let o = self.o(ins, i); args.push(o); aty.push(t);
                }
                if let Callee::Ext(fi) = callee {
                    let nm = &self.m.fnames[fi as usize];
                    if nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.x86.sse2.pause") { return; }
                }
                I::Call { d, has_ret: ty != Ty::Void, callee, args: args.into(), rty: ty, aty: aty.into(), normal }
            }
            46 => { let c = self.o(ins, 0); let a = self.o(ins, 1); let b = self.o(ins, 2); let vc = matches!(self.oty(ins, 0), Ty::Vec(..)); I::Select { d, c, a, b, ty, vc } }
            50 => { let a = self.o(ins, 0); let i = self.o(ins, 1); let t = self.oty(ins, 0); I::ExtractEl { d, a, i, ty: t } }
            51 => { let a = self.o(ins, 0); let v = self.o(ins, 1); let i = self.o(ins, 2); I::InsertEl { d, a, v, i, ty } }
            52 => { let a = self.o(ins, 0); let b = self.o(ins, 1); let n = self.m.api.LLVMGetNumMaskElements(ins); let mask: Vec<i32> = (0..n).map(|i| self.m.api.LLVMGetMaskValue(ins, i)).collect(); let it = self.oty(ins, 0); I::Shuffle { d, a, b, mask: mask.into(), ity: it, oty: ty } }
            53 => { let a = self.o(ins, 0); let n = self.m.api.LLVMGetNumIndices(ins); let p = self.m.api.LLVMGetIndices(ins); let path: Vec<u32> = (0..n).map(|i| unsafe { *p.add(i as usize) }).collect(); I::Extract { d, a, path: path.into() } }
            54 => { let a = self.o(ins, 0); let v = self.o(ins, 1); let n = self.m.api.LLVMGetNumIndices(ins); let p = self.m.api.LLVMGetIndices(ins); let path: Vec<u32> = (0..n).map(|i| unsafe { *p.add(i as usize) }).collect(); I::Insert { d, a, v, path: path.into() } }
            55 => return, // fence
            56 => { let p = self.o(ins, 0); let c = self.o(ins, 1); let v = self.o(ins, 2); let w = self.oty(ins, 1).bits(); I::CmpXchg { d, p, c, v, w } }
            57 => { let p = self.o(ins, 0); let v = self.o(ins, 1); let op = self.m.api.LLVMGetAtomicRMWBinOp(ins) as u8; let w = self.oty(ins, 1).bits(); I::Rmw { op, d, p, v, w } }
            68 => { let a = self.o(ins, 0); I::Mov { d, a } } // freeze
            _ => uns(self),
        };
        code.push(i);
    }
}
