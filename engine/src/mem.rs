//! Flat byte memory with copy-on-write pages and an optional symbolic byte per location.
use crate::expr::E;
use crate::ir::*;
use std::rc::Rc;
pub const PS: usize = 4096;
#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<[E; PS]>> }
type Dir = Vec<Option<Rc<Page>>>;
#[derive(Clone)]
pub struct Mem { top: Vec<Option<Rc<Dir>>>, pub heap: u64, pub free: [u64; 40] }
pub struct Fault(pub u64);
impl Mem {
    pub fn new() -> Mem { Mem { top: vec![None; (MEM_TOP as usize >> 21) + 1], heap: HEAP_BASE + 4096, free: [0; 40] } }
    #[inline(always)]
    pub fn page(&self, a: u64) -> Option<&Page> {
        let d = (a >> 21) as usize;
        match self.top.get(d) { Some(Some(x)) => match &x[(a >> 12) as usize & 511] { Some(p) => Some(p), None => None }, _ => None }
    }
    fn legal(&self, a: u64, image: &[u8]) -> bool {
        (a >= GLOBAL_BASE + 4096 && a < GLOBAL_BASE + image.len() as u64) || (a >= HEAP_BASE + 4096 && a < ((self.heap + 4095) & !4095)) || (a >= STACK_BASE && a < STACK_BASE + STACK_SIZE)
    }
    #[inline(always)]
    pub fn page_mut(&mut self, a: u64, image: &[u8]) -> Result<&mut Page, Fault> {
        let d = (a >> 21) as usize;
        let i = (a >> 12) as usize & 511;
        if d >= self.top.len() { return Err(Fault(a)) }
        let ok = match &self.top[d] { Some(x) => x[i].is_some(), None => false };
        if !ok {
            if !self.legal(a, image) { return Err(Fault(a)) }
            let mut p = Page { d: [0; PS], s: None };
            let pa = a & !4095;
            if pa >= GLOBAL_BASE && pa < GLOBAL_BASE + image.len() as u64 { let o = (pa - GLOBAL_BASE) as usize; p.d.copy_from_slice(&image[o..o + PS]); }
            if self.top[d].is_none() { self.top[d] = Some(Rc::new(vec![None; 512])); }
            Rc::make_mut(self.top[d].as_mut().unwrap())[i] = Some(Rc::new(p));
        }
        let dir = Rc::make_mut(self.top[d].as_mut().unwrap());
        Ok(Rc::make_mut(dir[i].as_mut().unwrap()))
    }
    /// Concrete little-endian read. Ok(None) when any byte is symbolic.
    #[inline(always)]
    pub fn read(&self, a: u64, n: usize, image: &[u8]) -> Result<Option<u64>, Fault> {
        let o = (a & 4095) as usize;
        if o + n <= PS {
            if let Some(p) = self.page(a) {
                if p.s.is_none() { return Ok(Some(rd(&p.d, o, n))) }
                let s = p.s.as_ref().unwrap();
                for j in 0..n { if s[o + j] != 0 { return Ok(None) } }
                return Ok(Some(rd(&p.d, o, n)));
            }
            let g = a.wrapping_sub(GLOBAL_BASE) as usize;
            if g < image.len() { if g < 4096 { return Err(Fault(a)) } return Ok(Some(rd(image, g, n))) }
            if self.legal(a, image) { return Ok(Some(0)) }
            return Err(Fault(a));
        }
        let mut v = 0u64;
        for j in 0..n { let (b, s) = self.byte(a.wrapping_add(j as u64), image)?; if s != 0 { return Ok(None) } v |= (b as u64) << (8 * j) }
        Ok(Some(v))
    }
    pub fn byte(&self, a: u64, image: &[u8]) -> Result<(u8, E), Fault> {
        if let Some(p) = self.page(a) { let o = (a & 4095) as usize; return Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o]))) }
        let g = a.wrapping_sub(GLOBAL_BASE) as usize;
        if g < image.len() { if g < 4096 { return Err(Fault(a)) } return Ok((image[g], 0)) }
        if self.legal(a, image) { return Ok((0, 0)) }
        Err(Fault(a))
    }
    #[inline(always)]
    pub fn write(&mut self, a: u64, v: u64, n: usize, image: &[u8]) -> Result<(), Fault> {
        let o = (a & 4095) as usize;
        if o + n <= PS {
            let p = self.page_mut(a, image)?;
            match n { 8 => p.d[o..o + 8].copy_from_slice(&v.to_le_bytes()), 4 => p.d[o..o + 4].copy_from_slice(&(v as u32).to_le_bytes()), 1 => p.d[o] = v as u8, _ => for j in 0..n { p.d[o + j] = (v >> (8 * j)) as u8 } }
            if let Some(s) = &mut p.s { for j in 0..n { s[o + j] = 0 } }
            return Ok(());
        }
        for j in 0..n { self.set_byte(a + j as u64, (v >> (8 * j)) as u8, 0, image)? }
        Ok(())
    }
    pub fn set_byte(&mut self, a: u64, v: u8, e: E, image: &[u8]) -> Result<(), Fault> {
        let p = self.page_mut(a, image)?;
        let o = (a & 4095) as usize;
        p.d[o] = v;
        if e != 0 { if p.s.is_none() { p.s = Some(Box::new([0; PS])) } }
        if let Some(s) = &mut p.s { s[o] = e }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64, image: &[u8]) -> Result<(), Fault> {
        if n == 0 || d == s { return Ok(()) }
        // temporary image of the source
        let mut buf = Vec::with_capacity(n as usize);
        let mut sy: Vec<(u32, E)> = vec![];
        let mut a = s; let mut left = n as usize;
        while left > 0 {
            let o = (a & 4095) as usize; let k = left.min(PS - o);
            if let Some(p) = self.page(a) {
                if let Some(ss) = &p.s { for j in 0..k { if ss[o + j] != 0 { sy.push(((n as usize - left + j) as u32, ss[o + j])) } } }
                buf.extend_from_slice(&p.d[o..o + k]);
            } else {
                let g = a.wrapping_sub(GLOBAL_BASE) as usize;
                if g < image.len() && g >= 4096 { buf.extend_from_slice(&image[g..g + k]) }
                else if self.legal(a, image) { buf.resize(buf.len() + k, 0) }
                else { return Err(Fault(a)) }
            }
            a += k as u64; left -= k;
        }
        let mut a = d; let mut done = 0usize; let n = n as usize; let mut si = 0;
        while done < n {
            let o = (a & 4095) as usize; let k = (n - done).min(PS - o);
            let p = self.page_mut(a, image)?;
            p.d[o..o + k].copy_from_slice(&buf[done..done + k]);
            if let Some(ss) = &mut p.s { for j in 0..k { ss[o + j] = 0 } }
            while si < sy.len() && (sy[si].0 as usize) < done + k {
                if p.s.is_none() { p.s = Some(Box::new([0; PS])) }
                p.s.as_mut().unwrap()[o + sy[si].0 as usize - done] = sy[si].1; si += 1;
            }
            a += k as u64; done += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, e: E, n: u64, image: &[u8]) -> Result<(), Fault> {
        let mut a = d; let mut left = n as usize;
        while left > 0 {
            let o = (a & 4095) as usize; let k = left.min(PS - o);
            let p = self.page_mut(a, image)?;
            p.d[o..o + k].fill(v);
            if e != 0 && p.s.is_none() { p.s = Some(Box::new([0; PS])) }
            if let Some(s) = &mut p.s { s[o..o + k].fill(e) }
            a += k as u64; left -= k;
        }
        Ok(())
    }
    // ---- allocator: power-of-two size classes with intrusive free lists
    fn class(size: u64) -> usize { let s = size.max(16); (64 - (s - 1).leading_zeros()) as usize }
    pub fn alloc(&mut self, size: u64, align: u64, image: &[u8]) -> Option<u64> {
        let c = Self::class(size.max(align));
        if c < 40 && self.free[c] != 0 {
            let a = self.free[c];
            if a % align.max(1) == 0 {
                if let Ok(Some(nx)) = self.read(a, 8, image) { self.free[c] = nx; return Some(a) }
            }
        }
        let sz = 1u64 << c;
        let al = align.max(16);
        let a = (self.heap + al - 1) / al * al;
        if a + sz >= STACK_BASE { return None }
        self.heap = a + sz;
        Some(a)
    }
    pub fn dealloc(&mut self, a: u64, size: u64, align: u64, image: &[u8]) {
        let c = Self::class(size.max(align));
        if c < 40 { let f = self.free[c]; if self.write(a, f, 8, image).is_ok() { self.free[c] = a } }
    }
}
#[inline(always)]
fn rd(d: &[u8], o: usize, n: usize) -> u64 {
    match n {
        8 => u64::from_le_bytes(d[o..o + 8].try_into().unwrap()), 4 => u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64,
        1 => d[o] as u64, 2 => u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64,
        _ => { let mut v = 0u64; for j in 0..n { v |= (d[o + j] as u64) << (8 * j) } v }
    }
}
