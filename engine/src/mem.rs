//! Copy-on-write object memory. A pointer is (object id << 32) | offset.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte (0 = concrete byte)
    pub ro: bool,
    pub heap: bool,
}
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Chunk>>, pub next: u64, pub live: u64 }

impl Mem {
    pub fn new() -> Self { let mut m = Mem { chunks: vec![], next: 0, live: 0 }; m.push(None); m }
    fn push(&mut self, o: Option<Rc<Obj>>) -> u64 {
        let id = self.next;
        if id as usize % CH == 0 { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(o);
        self.next += 1;
        id
    }
    pub fn add(&mut self, data: Vec<u8>, ro: bool, heap: bool) -> u64 {
        self.live += data.len() as u64;
        self.push(Some(Rc::new(Obj { data, sym: vec![], ro, heap })))
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Obj> {
        let c = self.chunks.get(id as usize / CH)?;
        c.get(id as usize % CH)?.as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let c = Rc::make_mut(c);
        match c.get_mut(id as usize % CH) { Some(Some(o)) => Some(Rc::make_mut(o)), _ => None }
    }
    pub fn free(&mut self, id: u64) -> bool {
        if let Some(c) = self.chunks.get_mut(id as usize / CH) {
            let c = Rc::make_mut(c);
            if let Some(s) = c.get_mut(id as usize % CH) { 
                if let Some(o) = s.take() { self.live = self.live.saturating_sub(o.data.len() as u64); return true; }
            }
        }
        false
    }
}
