//! Copy-on-write memory: concrete addresses, bytes that may be symbolic.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const SLOT: u32 = 22;
pub const REGION_SHIFT: u32 = 44;
pub const HEAP: u64 = 0;
pub const STACK: u64 = 1;
pub const GLOBAL: u64 = 2;
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, Ex>,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), ro: false }
    }
    pub fn byte(&self, i: u64) -> Ex {
        if !self.sym.is_empty() {
            if let Some(&e) = self.sym.get(&(i as u32)) {
                return e;
            }
        }
        c(self.data[i as usize] as u128, 8)
    }
    pub fn any_sym(&self, off: u64, n: u64) -> bool {
        !self.sym.is_empty() && self.sym.range(off as u32..(off + n) as u32).next().is_some()
    }
    pub fn set_byte(&mut self, i: u64, e: Ex) {
        if let Some(k) = as_const(e) {
            self.data[i as usize] = k as u8;
            if !self.sym.is_empty() {
                self.sym.remove(&(i as u32));
            }
        } else {
            self.sym.insert(i as u32, e);
        }
    }
    pub fn clear_sym(&mut self, off: u64, n: u64) {
        if self.sym.is_empty() {
            return;
        }
        let keys: Vec<u32> = self.sym.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
        for k in keys {
            self.sym.remove(&k);
        }
    }
    /// little-endian read of n bytes
    pub fn read(&self, off: u64, n: u64) -> Result<u128, Ex> {
        if !self.any_sym(off, n) {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | self.data[(off + i) as usize] as u128;
            }
            return Ok(v);
        }
        let mut e = self.byte(off);
        for i in 1..n {
            e = concat(self.byte(off + i), e);
        }
        match as_const(e) {
            Some(k) => Ok(k),
            None => Err(e),
        }
    }
    pub fn write_const(&mut self, off: u64, n: u64, v: u128) {
        for i in 0..n {
            self.data[(off + i) as usize] = (v >> (8 * i)) as u8;
        }
        self.clear_sym(off, n);
    }
    pub fn write_ex(&mut self, off: u64, n: u64, e: Ex) {
        for i in 0..n {
            self.set_byte(off + i, extract(e, (8 * i) as u32, 8));
        }
    }
}

const CH: usize = 64;

#[derive(Clone, Default)]
pub struct Region {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub len: usize,
}

impl Region {
    pub fn get(&self, id: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(id / CH).and_then(|ch| ch.get(id % CH)).and_then(|o| o.as_ref())
    }
    pub fn get_mut(&mut self, id: usize) -> Option<&mut Obj> {
        let ch = self.chunks.get_mut(id / CH)?;
        let o = Rc::make_mut(ch).get_mut(id % CH)?.as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn set(&mut self, id: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= id / CH {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = o;
        if id >= self.len {
            self.len = id + 1;
        }
    }
}
