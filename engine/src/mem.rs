//! Copy-on-write flat memory.  Every byte is concrete or an 8-bit expression.

use crate::expr::Eid;
use std::rc::Rc;

pub const PAGE: usize = 512;
const CHUNK: usize = 64;
pub const NOSYM: Eid = u32::MAX;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE],
    pub s: Option<Box<[Eid; PAGE]>>,
}

type Chunk = [Option<Rc<Page>>; CHUNK];

#[derive(Clone)]
pub struct Mem {
    pub base: u64,
    pub top: u64, // end of the valid range
    chunks: Vec<Option<Rc<Chunk>>>,
    pub sp: u64,
    pub stack_end: u64,
    pub heap: u64,
}

impl Mem {
    pub fn new(base: u64) -> Mem {
        Mem { base, top: base, chunks: vec![], sp: 0, stack_end: 0, heap: 0 }
    }
    pub fn set_top(&mut self, top: u64) {
        self.top = top;
        let pages = ((top - self.base) as usize + PAGE - 1) / PAGE;
        let n = (pages + CHUNK - 1) / CHUNK;
        if self.chunks.len() < n {
            self.chunks.resize(n, None);
        }
    }
    pub fn valid(&self, a: u64, n: u64) -> bool {
        a >= self.base && a.checked_add(n).map(|e| e <= self.top).unwrap_or(false)
    }
    #[inline]
    fn page(&self, i: usize) -> Option<&Page> {
        match &self.chunks[i / CHUNK] {
            None => None,
            Some(c) => c[i % CHUNK].as_deref(),
        }
    }
    #[inline]
    fn page_mut(&mut self, i: usize) -> &mut Page {
        const NONE: Option<Rc<Page>> = None;
        let c = self.chunks[i / CHUNK].get_or_insert_with(|| Rc::new([NONE; CHUNK]));
        let c = Rc::make_mut(c);
        let p = c[i % CHUNK].get_or_insert_with(|| Rc::new(Page { d: [0; PAGE], s: None }));
        Rc::make_mut(p)
    }
    #[inline]
    pub fn get(&self, a: u64) -> (u8, Eid) {
        let o = (a - self.base) as usize;
        match self.page(o / PAGE) {
            None => (0, NOSYM),
            Some(p) => (p.d[o % PAGE], p.s.as_ref().map(|s| s[o % PAGE]).unwrap_or(NOSYM)),
        }
    }
    #[inline]
    pub fn put(&mut self, a: u64, v: u8) {
        let o = (a - self.base) as usize;
        let p = self.page_mut(o / PAGE);
        p.d[o % PAGE] = v;
        if let Some(s) = &mut p.s {
            s[o % PAGE] = NOSYM;
        }
    }
    pub fn put_sym(&mut self, a: u64, e: Eid) {
        let o = (a - self.base) as usize;
        let p = self.page_mut(o / PAGE);
        p.s.get_or_insert_with(|| Box::new([NOSYM; PAGE]))[o % PAGE] = e;
    }
    /// Concrete read of up to 16 bytes, or None if a byte is symbolic.
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Option<u128> {
        let o = (a - self.base) as usize;
        let off = o % PAGE;
        if off + n <= PAGE {
            match self.page(o / PAGE) {
                None => Some(0),
                Some(p) => {
                    if let Some(s) = &p.s {
                        if s[off..off + n].iter().any(|x| *x != NOSYM) {
                            return None;
                        }
                    }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&p.d[off..off + n]);
                    Some(u128::from_le_bytes(b))
                }
            }
        } else {
            let mut v = 0u128;
            for i in 0..n {
                let (b, s) = self.get(a + i as u64);
                if s != NOSYM {
                    return None;
                }
                v |= (b as u128) << (8 * i);
            }
            Some(v)
        }
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u128) {
        let o = (a - self.base) as usize;
        let off = o % PAGE;
        let b = v.to_le_bytes();
        if off + n <= PAGE {
            let p = self.page_mut(o / PAGE);
            p.d[off..off + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s {
                for x in &mut s[off..off + n] {
                    *x = NOSYM;
                }
            }
        } else {
            for i in 0..n {
                self.put(a + i as u64, b[i]);
            }
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 {
            return;
        }
        if n <= 16 {
            if let Some(v) = self.read(src, n as usize) {
                self.write(dst, n as usize, v);
                return;
            }
        }
        let bytes: Vec<(u8, Eid)> = (0..n).map(|i| self.get(src + i)).collect();
        for (i, (b, s)) in bytes.into_iter().enumerate() {
            let a = dst + i as u64;
            if s == NOSYM {
                self.put(a, b);
            } else {
                self.put_sym(a, s);
            }
        }
    }
    pub fn set(&mut self, dst: u64, v: u8, n: u64) {
        for i in 0..n {
            self.put(dst + i, v);
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let align = align.max(16);
        let a = (self.heap + 16 + align - 1) / align * align;
        self.heap = a + size.max(1);
        let t = self.heap + 64;
        if t > self.top {
            self.set_top(t);
        }
        self.write(a - 8, 8, size as u128);
        a
    }
    pub fn alloc_size(&self, a: u64) -> u64 {
        self.read(a - 8, 8).unwrap_or(0) as u64
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> Option<u64> {
        let align = align.max(1);
        let a = (self.sp + align - 1) / align * align;
        self.sp = a + size.max(1);
        if self.sp > self.stack_end {
            return None;
        }
        Some(a)
    }
}
