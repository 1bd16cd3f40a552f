//! Memory objects: concrete bytes plus an optional overlay of symbolic bytes; persistent table for cheap forking.
use crate::expr::Ex;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, Ex>>>, // byte offset -> 8-bit expression
    pub constant: bool,
}

impl Obj {
    pub fn new(n: usize) -> Self {
        Obj { data: vec![0; n], sym: None, constant: false }
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            let (a, b) = (off as u32, (off + n) as u32);
            if n <= 16 {
                for i in a..b {
                    s.remove(&i);
                }
            } else {
                let mut hi = s.split_off(&a);
                let mut rest = hi.split_off(&b);
                s.append(&mut rest);
            }
            if s.is_empty() {
                self.sym = None;
            }
        }
    }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s.range(off as u32..(off + n) as u32).next().is_some(),
        }
    }
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Table {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub len: usize,
}

fn empty() -> Chunk {
    [const { None }; CH]
}

impl Table {
    pub fn new() -> Self {
        Table { chunks: vec![], len: 0 }
    }
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH)?.as_ref()?[i % CH].as_ref()
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Rc<Obj>> {
        let c = self.chunks.get_mut(i / CH)?.as_mut()?;
        Rc::make_mut(c)[i % CH].as_mut()
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= i / CH {
            self.chunks.push(None);
        }
        let c = &mut self.chunks[i / CH];
        if c.is_none() {
            if o.is_none() {
                return;
            }
            *c = Some(Rc::new(empty()));
        }
        let none = o.is_none();
        let cc = Rc::make_mut(c.as_mut().unwrap());
        cc[i % CH] = o;
        if none && cc.iter().all(|x| x.is_none()) {
            *c = None;
        }
    }
    pub fn push(&mut self, o: Rc<Obj>) -> usize {
        let i = self.len;
        self.len += 1;
        self.set(i, Some(o));
        i
    }
}
