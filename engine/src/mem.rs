//! Copy-on-write flat memory: address = object index << 32 | offset.
use crate::exec::V;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// symbolic cells: offset -> (length in bytes, value)
    pub sym: BTreeMap<u32, (u8, V)>,
    pub kind: u8, // 0 global, 1 heap, 2 stack
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u32,
}

pub const FN_IDX: u32 = 0x7000_0000;
pub fn addr(idx: u32, off: u32) -> u64 {
    ((idx as u64) << 32) | off as u64
}
pub fn split(a: u64) -> (u32, u32) {
    ((a >> 32) as u32, a as u32)
}

impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { chunks: vec![], next: first }
    }
    pub fn alloc(&mut self, size: u64, kind: u8) -> u32 {
        let i = self.next;
        self.next += 1;
        self.put(i, Rc::new(Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), kind }));
        i
    }
    pub fn put(&mut self, i: u32, o: Rc<Obj>) {
        let c = i as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[i as usize % CH] = Some(o);
    }
    pub fn free(&mut self, i: u32) {
        let c = i as usize / CH;
        if c < self.chunks.len() {
            Rc::make_mut(&mut self.chunks[c])[i as usize % CH] = None;
        }
    }
    pub fn get(&self, i: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(i as usize / CH).and_then(|c| c[i as usize % CH].as_ref())
    }
    pub fn get_mut(&mut self, i: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i as usize / CH)?;
        let c = Rc::make_mut(c);
        c[i as usize % CH].as_mut().map(Rc::make_mut)
    }
}

impl Obj {
    /// symbolic cells intersecting [off, off+n)
    pub fn overlapping(&self, off: u32, n: u32) -> Vec<u32> {
        if self.sym.is_empty() {
            return vec![];
        }
        let lo = off.saturating_sub(16);
        self.sym
            .range(lo..off.saturating_add(n))
            .filter(|(o, (l, _))| **o + *l as u32 > off)
            .map(|x| *x.0)
            .collect()
    }
}
