//! The bytecode runner's heap, compiled from /repo's own file, next to a plain
//! graph of the objects that were put into it.
#![allow(warnings)]
#[path = "/repo/ticc-eval/src/heap.rs"]
mod heap;

use heap::{Addr, Heap, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Field {
    Int(u64),
    Ref(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Obj {
    Fields(u64, Vec<Field>),
    Bytes(u64, Vec<u8>),
}
/// `objs[k]` is what object k must look like; `roots[i]` names the object root i holds.
pub struct Machine {
    heap: Heap,
    addrs: Vec<Addr>,
    pub roots: Vec<usize>,
    pub objs: Vec<Obj>,
}

impl Machine {
    pub fn new() -> Machine {
        Machine { heap: Heap::new(), addrs: vec![], roots: vec![], objs: vec![] }
    }
    pub fn allocated(&self) -> usize {
        self.heap.allocated()
    }
    pub fn capacity(&self) -> usize {
        self.heap.capacity()
    }
    pub fn free(&self) -> usize {
        self.heap.free_space()
    }
    pub fn size(o: &Obj) -> usize {
        match o {
            Obj::Fields(_, f) => Heap::object_size(8 * f.len()),
            Obj::Bytes(_, b) => Heap::object_size(b.len()),
        }
    }
    /// fields refer to roots; the new object becomes the last root
    pub fn alloc_obj(&mut self, tag: u64, fields: &[Field]) {
        let mut o = self.heap.alloc_object(tag, fields.len() as u32);
        let mut sh = vec![];
        for (i, f) in fields.iter().enumerate() {
            match f {
                Field::Int(x) => {
                    o.put_int(i, *x);
                    sh.push(Field::Int(*x));
                }
                Field::Ref(r) => {
                    o.put_ptr(i, self.addrs[*r]);
                    sh.push(Field::Ref(self.roots[*r]));
                }
            }
        }
        let a = o.addr;
        self.addrs.push(a);
        self.roots.push(self.objs.len());
        self.objs.push(Obj::Fields(tag, sh));
    }
    pub fn alloc_bytes(&mut self, tag: u64, bytes: &[u8]) {
        let o = self.heap.alloc_bytes(tag, bytes.len() as u32);
        o.bytes[..bytes.len()].copy_from_slice(bytes);
        let a = o.addr;
        self.addrs.push(a);
        self.roots.push(self.objs.len());
        self.objs.push(Obj::Bytes(tag, bytes.to_vec()));
    }
    pub fn drop_root(&mut self, i: usize) {
        self.addrs.remove(i);
        self.roots.remove(i);
    }
    pub fn dup_root(&mut self, i: usize) {
        self.addrs.push(self.addrs[i]);
        self.roots.push(self.roots[i]);
    }
    /// the reference in field k of root i becomes a root
    pub fn follow(&mut self, i: usize, k: usize) {
        if let Obj::Fields(_, f) = &self.objs[self.roots[i]] {
            if let Some(Field::Ref(t)) = f.get(k) {
                let t = *t;
                let v = { self.heap.obj_with_fields(self.addrs[i]).1.nth(k) };
                if let Some(Value::Ptr(a)) = v {
                    self.addrs.push(a);
                    self.roots.push(t);
                }
            }
        }
    }
    pub fn collect(&mut self, room: Option<u32>) {
        match room {
            None => self.heap.collect(self.addrs.iter_mut()),
            Some(n) => self.heap.collect_and_grow(self.addrs.iter_mut(), n),
        }
    }
    /// the heap reachable from the roots against the graph: contents, shape, sharing
    pub fn check(&self) -> Result<usize, String> {
        let mut at: HashMap<usize, Addr> = HashMap::new();
        let mut back: HashMap<Addr, usize> = HashMap::new();
        let mut todo: Vec<(usize, Addr)> = self.roots.iter().copied().zip(self.addrs.iter().copied()).collect();
        while let Some((k, a)) = todo.pop() {
            match (at.get(&k), back.get(&a)) {
                (Some(b), _) if *b != a => return Err(format!("object {} is at {:?} and at {:?}", k, b, a)),
                (_, Some(l)) if *l != k => return Err(format!("objects {} and {} are both at {:?}", k, l, a)),
                (Some(_), _) => continue,
                _ => {}
            }
            at.insert(k, a);
            back.insert(a, k);
            match &self.objs[k] {
                Obj::Bytes(tag, b) => {
                    let (t, got) = self.heap.obj_with_bytes(a);
                    if t != *tag || got.len() < b.len() || &got[..b.len()] != &b[..] {
                        return Err(format!("object {}: expected tag {} bytes {:?}, found tag {} bytes {:?}", k, tag, b, t, got));
                    }
                }
                Obj::Fields(tag, f) => {
                    let (t, got) = self.heap.obj_with_fields(a);
                    let got: Vec<Value> = got.collect();
                    if t != *tag || got.len() != f.len() {
                        return Err(format!("object {}: expected tag {} with {} fields, found tag {} with {}", k, tag, f.len(), t, got.len()));
                    }
                    for (i, (w, g)) in f.iter().zip(got).enumerate() {
                        match (w, g) {
                            (Field::Int(x), Value::Int(y)) if *x == y => {}
                            (Field::Ref(n), Value::Ptr(p)) => todo.push((*n, p)),
                            (w, g) => return Err(format!("object {} field {}: expected {:?}, found {:?}", k, i, w, g)),
                        }
                    }
                }
            }
        }
        Ok(at.len())
    }
}
