//! Copy-on-write paged memory; every byte is concrete or an 8-bit expression.
use crate::expr::*;
use std::rc::Rc;

pub const PS: usize = 4096;
const CH: usize = 256; // pages per chunk

#[derive(Clone)]
pub struct Page { pub data: [u8; PS], pub sym: Option<Box<[E; PS]>>, }
type Chunk = [Option<Rc<Page>>; CH];

#[derive(Clone)]
pub struct Mem { chunks: Vec<Option<Rc<Chunk>>> }

impl Mem {
    pub fn new() -> Self { Mem { chunks: vec![None; 1024] } }
    #[inline] fn page(&self, a: u64) -> Option<&Page> {
        let p = (a as usize) / PS;
        match self.chunks.get(p / CH) { Some(Some(c)) => c[p % CH].as_deref(), _ => None }
    }
    #[inline] pub fn page_mut(&mut self, a: u64) -> &mut Page {
        let p = (a as usize) / PS;
        if p / CH >= self.chunks.len() { panic!("address out of range {a:#x}"); }
        let c = self.chunks[p / CH].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
        let c = Rc::make_mut(c);
        Rc::make_mut(c[p % CH].get_or_insert_with(|| Rc::new(Page { data: [0; PS], sym: None })))
    }
    pub fn valid(&self, a: u64) -> bool { a >= 0x1000 && ((a as usize) / PS / CH) < self.chunks.len() }
    /// Concrete little-endian load; None if any byte is symbolic.
    #[inline] pub fn load_c(&self, a: u64, n: usize) -> Option<u128> {
        let off = (a as usize) % PS;
        if off + n <= PS {
            match self.page(a) {
                None => Some(0),
                Some(p) => {
                    if let Some(s) = &p.sym { if s[off..off + n].iter().any(|&e| e != 0) { return None; } }
                    let d = &p.data[off..];
                    Some(match n {
                        1 => d[0] as u128,
                        2 => u16::from_le_bytes([d[0], d[1]]) as u128,
                        4 => u32::from_le_bytes(d[..4].try_into().unwrap()) as u128,
                        8 => u64::from_le_bytes(d[..8].try_into().unwrap()) as u128,
                        _ => { let mut b = [0u8; 16]; b[..n].copy_from_slice(&d[..n]); u128::from_le_bytes(b) }
                    })
                }
            }
        } else {
            let mut r = 0u128;
            for i in 0..n { let (b, e) = self.byte(a + i as u64); if e != 0 { return None; } r |= (b as u128) << (8 * i); }
            Some(r)
        }
    }
    #[inline] pub fn byte(&self, a: u64) -> (u8, E) {
        match self.page(a) { None => (0, 0), Some(p) => { let o = a as usize % PS; (p.data[o], p.sym.as_ref().map_or(0, |s| s[o])) } }
    }
    #[inline] pub fn store_c(&mut self, a: u64, v: u128, n: usize) {
        let off = (a as usize) % PS;
        if off + n <= PS {
            let p = self.page_mut(a);
            p.data[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.sym { s[off..off + n].fill(0); }
        } else {
            for i in 0..n { self.set_byte(a + i as u64, (v >> (8 * i)) as u8, 0); }
        }
    }
    pub fn set_byte(&mut self, a: u64, b: u8, e: E) {
        let p = self.page_mut(a);
        let o = a as usize % PS;
        p.data[o] = b;
        if e != 0 { p.sym.get_or_insert_with(|| Box::new([0; PS]))[o] = e; }
        else if let Some(s) = &mut p.sym { s[o] = 0; }
    }
    pub fn load_s(&self, ar: &mut Arena, a: u64, n: usize) -> E {
        let mut r: Option<E> = None;
        for i in 0..n {
            let (b, e) = self.byte(a + i as u64);
            let x = if e != 0 { e } else { ar.konst(b as u128, 8) };
            r = Some(match r { None => x, Some(l) => ar.concat(x, l) });
        }
        r.unwrap()
    }
    pub fn store_s(&mut self, ar: &mut Arena, a: u64, v: E, n: usize) {
        let w = ar.w(v);
        let v = if (w as usize) < 8 * n { ar.zext(v, 8 * n as u16) } else { v };
        for i in 0..n {
            let b = ar.extract(v, 8 * i as u16, 8);
            match ar.as_const(b) { Some(k) => self.set_byte(a + i as u64, k as u8, 0), None => self.set_byte(a + i as u64, 0, b) }
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: usize) {
        if n == 0 || dst == src { return; }
        // snapshot source bytes
        let mut data = vec![0u8; n];
        let mut syms: Vec<(usize, E)> = vec![];
        let mut i = 0;
        while i < n {
            let a = src + i as u64;
            let o = a as usize % PS;
            let k = (PS - o).min(n - i);
            if let Some(p) = self.page(a) {
                data[i..i + k].copy_from_slice(&p.data[o..o + k]);
                if let Some(s) = &p.sym { for j in 0..k { if s[o + j] != 0 { syms.push((i + j, s[o + j])); } } }
            }
            i += k;
        }
        self.write(dst, &data);
        for (j, e) in syms { self.set_byte(dst + j as u64, 0, e); }
    }
    pub fn write(&mut self, dst: u64, data: &[u8]) {
        let n = data.len();
        let mut i = 0;
        while i < n {
            let a = dst + i as u64;
            let o = a as usize % PS;
            let k = (PS - o).min(n - i);
            let p = self.page_mut(a);
            p.data[o..o + k].copy_from_slice(&data[i..i + k]);
            if let Some(s) = &mut p.sym { s[o..o + k].fill(0); }
            i += k;
        }
    }
    pub fn fill(&mut self, dst: u64, b: u8, n: usize) {
        let mut i = 0;
        while i < n {
            let a = dst + i as u64;
            let o = a as usize % PS;
            let k = (PS - o).min(n - i);
            let p = self.page_mut(a);
            p.data[o..o + k].fill(b);
            if let Some(s) = &mut p.sym { s[o..o + k].fill(0); }
            i += k;
        }
    }
    pub fn read_conc(&self, a: u64, n: usize) -> Option<Vec<u8>> {
        let mut v = vec![0u8; n];
        for i in 0..n { let (b, e) = self.byte(a + i as u64); if e != 0 { return None; } v[i] = b; }
        Some(v)
    }
}
