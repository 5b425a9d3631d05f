//! Hash-consed bit-vector expressions with constant folding and light rewriting.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub var_names: Vec<(String, u16)>,
    var_nodes: Vec<E>,
    vars_memo: Vec<Option<Rc<Vec<u32>>>>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }], map: HashMap::new(), var_names: vec![], var_nodes: vec![], vars_memo: vec![], memo: vec![], stamp: 0 }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.map.insert(n, e);
        e
    }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn konst(&mut self, k: u128, w: u16) -> E { self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) }) }
    pub fn var(&mut self, name: &str, w: u16) -> E {
        let id = self.var_names.len() as u128;
        self.var_names.push((name.to_string(), w));
        let e = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id });
        self.var_nodes.push(e);
        e
    }
    pub fn var_node(&self, v: u32) -> Option<E> { self.var_nodes.get(v as usize).copied() }
    pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
        let m = mask(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => if y == 0 { m } else { x / y },
            Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
            Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => if y >= w as u128 { 0 } else { x << y },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => { let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; (sx(x, w) >> s.min(127)) as u128 }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128,
            Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
            _ => unreachable!(),
        };
        if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { r } else { r & m }
    }
    /// An upper bound on the significant bits of a term.
    pub fn bits(&self, e: E, depth: u32) -> u16 {
        let n = &self.nodes[e as usize]; let w = self.w(e);
        if let Some(c) = self.as_const(e) { return (128 - c.leading_zeros()) as u16; }
        if depth == 0 { return w; }
        let d = depth - 1;
        match n.op {
            Op::ZExt => self.bits(n.a, d),
            Op::Concat => { let h = self.bits(n.a, d); if h == 0 { self.bits(n.b, d) } else { self.w(n.b) + h } }
            Op::And => self.bits(n.a, d).min(self.bits(n.b, d)),
            Op::Or | Op::Xor => self.bits(n.a, d).max(self.bits(n.b, d)),
            Op::UDiv => { let a = self.bits(n.a, d); match self.as_const(n.b) { Some(y) if y > 0 => a.saturating_sub((127 - y.leading_zeros()) as u16), _ => w } }
            Op::URem => { let a = self.bits(n.a, d); match self.as_const(n.b) { Some(y) if y > 0 => a.min((128 - (y - 1).leading_zeros()) as u16), _ => w } }
            Op::Ite => self.bits(n.b, d).max(self.bits(n.c, d)),
            _ => w,
        }
    }
    pub fn not1(&mut self, a: E) -> E { let t = self.konst(1, 1); self.bin(Op::Xor, a, t) }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let k = Self::fold(op, w, x, y); return self.konst(k, rw); }
        // canonical: const on the right for commutative ops
        let (mut ca, mut cb) = (ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        }
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => return a,
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Mul if y == 1 => return a,
                Op::Mul if y == 0 => return b,
                Op::UDiv if y == 1 => return a,
                Op::Shl | Op::LShr if y >= w as u128 => return self.konst(0, w),
                Op::Ult if y == 0 => return self.konst(0, 1),
                Op::Ule if y == m => return self.konst(1, 1),
                _ => {}
            }
            // a dividend with leading zeros: divide in fewer bits
            if matches!(op, Op::UDiv | Op::URem) && y != 0 {
                let nw = self.bits(a, 6).max((128 - y.leading_zeros()) as u16).max(1);
                if nw < w { let x = self.extract(a, 0, nw); let k = self.konst(y, nw); let r = self.bin(op, x, k); return self.zext(r, w); }
            }
            let n = self.nodes[a as usize].clone();
            match op {
                Op::Add => if n.op == Op::Add { if let Some(z) = self.as_const(n.b) { let k = self.konst(y.wrapping_add(z), w); return self.bin(Op::Add, n.a, k); } },
                Op::Sub => { let k = self.konst(y.wrapping_neg(), w); return self.bin(Op::Add, a, k); }
                Op::Xor => if n.op == Op::Xor { if let Some(z) = self.as_const(n.b) { let k = self.konst(y ^ z, w); return self.bin(Op::Xor, n.a, k); } },
                Op::And => {
                    if n.op == Op::And { if let Some(z) = self.as_const(n.b) { let k = self.konst(y & z, w); return self.bin(Op::And, n.a, k); } }
                    if n.op == Op::ZExt { let iw = self.w(n.a); let ik = self.konst(y, iw); let i = self.bin(Op::And, n.a, ik); return self.zext(i, w); }
                    // low mask => zext(extract)
                    let bits = y.count_ones() as u16;
                    if y == mask(bits) && bits < w { let x = self.extract(a, 0, bits); return self.zext(x, w); }
                }
                Op::LShr => { let x = self.extract(a, y as u16, w - y as u16); return self.zext(x, w); }
                Op::Shl => { let x = self.extract(a, 0, w - y as u16); let z = self.konst(0, y as u16); return self.concat(x, z); }
                Op::Eq => {
                    if w == 1 { return if y == 1 { a } else { self.not1(a) }; }
                    match n.op {
                        Op::ZExt => { let iw = self.w(n.a); if y > mask(iw) { return self.konst(0, 1); } let k = self.konst(y, iw); return self.bin(Op::Eq, n.a, k); }
                        Op::SExt => { let iw = self.w(n.a); let t = y & mask(iw); if (sx(t, iw) as u128) & m != y { return self.konst(0, 1); } let k = self.konst(t, iw); return self.bin(Op::Eq, n.a, k); }
                        Op::Concat => {
                            let lw = self.w(n.b); let hw = self.w(n.a);
                            let kh = self.konst(y >> lw, hw); let kl = self.konst(y, lw);
                            let h = self.bin(Op::Eq, n.a, kh); let l = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Add => if let Some(z) = self.as_const(n.b) { let k = self.konst(y.wrapping_sub(z), w); return self.bin(Op::Eq, n.a, k); },
                        Op::Xor => if let Some(z) = self.as_const(n.b) { let k = self.konst(y ^ z, w); return self.bin(Op::Eq, n.a, k); },
                        Op::Ite => {
                            let (t, f) = (self.as_const(n.b), self.as_const(n.c));
                            if t.is_some() || f.is_some() {
                                let et = self.bin(Op::Eq, n.b, b); let ef = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, et, ef);
                            }
                        }
                        _ => {}
                    }
                }
                Op::Ult | Op::Ule if n.op == Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) { return self.konst(1, 1); }
                    let k = self.konst(y, iw); return self.bin(op, n.a, k);
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) => {
                    let et = self.bin(op, n.b, b); let ef = self.bin(op, n.c, b);
                    return self.ite(n.a, et, ef);
                }
                _ => {}
            }
        }
        if let Some(x) = ca {
            match op {
                Op::Sub if x == 0 => {}
                Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if x == 0 && op != Op::UDiv && op != Op::URem => return a,
                Op::Ule if x == 0 => return self.konst(1, 1),
                Op::Ult if x == m => return self.konst(0, 1),
                Op::Ult | Op::Ule => {
                    let n = self.nodes[b as usize].clone();
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if x > mask(iw) { return self.konst(0, 1); }
                        let k = self.konst(x, iw); return self.bin(op, k, n.a);
                    }
                    if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                        let et = self.bin(op, a, n.b); let ef = self.bin(op, a, n.c);
                        return self.ite(n.a, et, ef);
                    }
                }
                Op::Slt | Op::Sle => {
                    let n = self.nodes[b as usize].clone();
                    if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                        let et = self.bin(op, a, n.b); let ef = self.bin(op, a, n.c);
                        return self.ite(n.a, et, ef);
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(0, w),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(0, 1),
                _ => {}
            }
        }
        let (na, nb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) && matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::And | Op::Or | Op::Xor) {
            let r = self.bin(op, na.a, nb.a);
            return if rw == 1 { r } else { self.zext(r, w) };
        }
        if op == Op::Or {
            // or of disjoint zext / shifted parts -> concat
            if na.op == Op::ZExt && nb.op == Op::Concat && self.as_const(nb.b) == Some(0) {
                let lw = self.w(nb.b); let iw = self.w(na.a);
                if iw <= lw { let lo = self.zext(na.a, lw); return self.concat(nb.a, lo); }
            }
            if nb.op == Op::ZExt && na.op == Op::Concat && self.as_const(na.b) == Some(0) {
                let lw = self.w(na.b); let iw = self.w(nb.a);
                if iw <= lw { let lo = self.zext(nb.a, lw); return self.concat(na.a, lo); }
            }
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.nodes[a as usize].clone();
        if n.w == w { return a; }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let t = self.zext(n.b, w); let f = self.zext(n.c, w); self.ite(n.a, t, f)
            }
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.nodes[a as usize].clone();
        if n.w == w { return a; }
        match n.op {
            Op::Const => self.konst(sx(n.k, n.w) as u128, w),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let t = self.sext(n.b, w); let f = self.sext(n.c, w); self.ite(n.a, t, f)
            }
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.nodes[a as usize].clone();
        if lo == 0 && n.w == w { return a; }
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.b as u16, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { self.konst(0, w) }
                else if lo + w <= iw { self.extract(n.a, lo, w) }
                else { let x = self.extract(n.a, lo, iw - lo); self.zext(x, w) }
            }
            Op::SExt if lo == 0 && w <= self.w(n.a) => self.extract(n.a, 0, w),
            Op::SExt if lo == 0 => { self.sext(n.a, w) }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { self.extract(n.a, lo - lw, w) }
                else if lo + w <= lw { self.extract(n.b, lo, w) }
                else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); self.bin(n.op, x, y) }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); self.bin(n.op, x, y) }
            Op::Ite => { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); self.ite(n.a, x, y) }
            _ => self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0, k: 0 }),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.nodes[h as usize].clone(), self.nodes[l as usize].clone());
        let w = nh.w + nl.w;
        if nh.op == Op::Const && nl.op == Op::Const { return self.konst((nh.k << nl.w) | nl.k, w); }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(l, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b as u16 == nl.b as u16 + nl.w {
            return self.extract(nh.a, nl.b as u16, w);
        }
        // low part is the full low prefix of an expression whose extract got simplified
        if nh.op == Op::Extract && nh.a == l && nh.b as u16 == nl.w && false { return l; }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b); let f = self.concat(nh.c, nl.c); return self.ite(nh.a, t, f);
        }
        if nh.op == Op::Const && nl.op == Op::Ite && self.as_const(nl.b).is_some() && self.as_const(nl.c).is_some() {
            let t = self.concat(h, nl.b); let f = self.concat(h, nl.c); return self.ite(nl.a, t, f);
        }
        if nl.op == Op::Const && nh.op == Op::Ite && self.as_const(nh.b).is_some() && self.as_const(nh.c).is_some() {
            let t = self.concat(nh.b, l); let f = self.concat(nh.c, l); return self.ite(nh.a, t, f);
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn vars(&mut self, e: E) -> Rc<Vec<u32>> {
        if self.vars_memo.len() < self.nodes.len() { let n = self.nodes.len(); self.vars_memo.resize(n, None); }
        if let Some(v) = &self.vars_memo[e as usize] { return v.clone(); }
        let n = self.nodes[e as usize].clone();
        let r = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.k as u32]),
            Op::ZExt | Op::SExt | Op::Extract => self.vars(n.a),
            Op::Ite => { let (x, y, z) = (self.vars(n.a), self.vars(n.b), self.vars(n.c)); Self::union(&Self::union(&x, &y), &z) }
            _ => { let (x, y) = (self.vars(n.a), self.vars(n.b)); Self::union(&x, &y) }
        };
        self.vars_memo[e as usize] = Some(r.clone());
        r
    }
    fn union(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
        if b.is_empty() || a == b { return a.clone(); }
        if a.is_empty() { return b.clone(); }
        let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
        v.sort_unstable(); v.dedup();
        Rc::new(v)
    }
    /// Concrete evaluation under a model (missing variables are 0).
    pub fn eval(&mut self, e: E, model: &HashMap<u32, u128>) -> u128 {
        if self.memo.len() < self.nodes.len() { let n = self.nodes.len(); self.memo.resize(n, (0, 0)); }
        self.stamp += 1;
        let s = self.stamp;
        self.ev(e, model, s)
    }
    fn ev(&mut self, e: E, m: &HashMap<u32, u128>, s: u32) -> u128 {
        let (st, v) = self.memo[e as usize];
        if st == s { return v; }
        let (op, w, a, b, c, k) = { let n = &self.nodes[e as usize]; (n.op, n.w, n.a, n.b, n.c, n.k) };
        let r = match op {
            Op::Const => k,
            Op::Var => m.get(&(k as u32)).copied().unwrap_or(0) & mask(w),
            Op::Ite => if self.ev(a, m, s) == 1 { self.ev(b, m, s) } else { self.ev(c, m, s) },
            Op::ZExt => self.ev(a, m, s),
            Op::SExt => { let x = self.ev(a, m, s); (sx(x, self.w(a)) as u128) & mask(w) }
            Op::Extract => (self.ev(a, m, s) >> b) & mask(w),
            Op::Concat => { let h = self.ev(a, m, s); let l = self.ev(b, m, s); (h << self.w(b)) | l }
            _ => { let x = self.ev(a, m, s); let y = self.ev(b, m, s); let iw = self.w(a); Self::fold(op, iw, x, y) }
        };
        self.memo[e as usize] = (s, r);
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        if depth == 0 { return "…".into(); }
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => self.var_names[n.k as usize].0.clone(),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
