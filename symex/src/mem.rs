//! Byte-addressed memory with concrete addresses; symbolic values live in slots laid over the bytes.
use crate::exec::{Stop, V};
use crate::parse::{Module, Ty};
use crate::term::{Sort, Terms};
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Alloc {
    pub base: u64,
    pub size: u64,
    pub data: Vec<u8>,
    pub init: bool,
    pub slots: BTreeMap<u64, (u64, V)>,
    pub freed: bool,
    pub gidx: u32,
}

pub struct Mem {
    pub allocs: Vec<Alloc>,
    last: usize,
    pub heap_next: u64,
    pub sp: u64,
    pub stack_base: u64,
    pub stack: Alloc,
    pub nglob: usize,
}

pub const HEAP: u64 = 0x1000_0000_0000;
pub const STACK: u64 = 0x2000_0000_0000;
pub const STACK_MAX: u64 = 256 << 20;

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut allocs = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            allocs.push(Alloc {
                base: g.addr,
                size: g.ty.size(),
                data: vec![],
                init: false,
                slots: BTreeMap::new(),
                freed: false,
                gidx: i as u32,
            });
        }
        let nglob = allocs.len();
        Mem {
            allocs,
            last: 0,
            heap_next: HEAP,
            sp: 0,
            stack_base: STACK,
            stack: Alloc { base: STACK, size: STACK_MAX, data: vec![], init: true, slots: BTreeMap::new(), freed: false, gidx: !0 },
            nglob,
        }
    }
    pub fn reset(&mut self) {
        self.allocs.truncate(self.nglob);
        for a in &mut self.allocs {
            if a.init {
                a.init = false;
                a.data = vec![];
                a.slots.clear();
            }
        }
        self.heap_next = HEAP;
        self.sp = 0;
        self.stack.data.clear();
        self.stack.slots.clear();
        self.last = 0;
    }
    pub fn malloc(&mut self, size: u64, align: u64) -> u64 {
        let base = self.heap_next.next_multiple_of(align.max(16));
        self.allocs.push(Alloc {
            base,
            size,
            data: vec![0; size as usize],
            init: true,
            slots: BTreeMap::new(),
            freed: false,
            gidx: !0,
        });
        self.heap_next = base + size.max(1) + 32;
        base
    }
    pub fn free(&mut self, p: u64) -> Result<(), Stop> {
        if p == 0 {
            return Ok(());
        }
        match self.allocs.binary_search_by(|a| a.base.cmp(&p)) {
            Ok(i) if !self.allocs[i].freed => {
                self.allocs[i].freed = true;
                self.allocs[i].data = vec![];
                self.allocs[i].slots.clear();
                Ok(())
            }
            _ => Err(Stop::MemErr(format!("bad free {p:#x}"))),
        }
    }
    pub fn alloc_size(&self, p: u64) -> Option<u64> {
        self.allocs.binary_search_by(|a| a.base.cmp(&p)).ok().map(|i| self.allocs[i].size)
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> u64 {
        let b = (STACK + self.sp).next_multiple_of(align.max(8));
        let end = b + size - STACK;
        self.sp = end;
        if self.stack.data.len() < end as usize {
            self.stack.data.resize(end as usize + 4096, 0);
        }
        b
    }
    pub fn pop_stack(&mut self, sp: u64) {
        if sp < self.sp {
            self.sp = sp;
            if !self.stack.slots.is_empty() {
                let _ = self.stack.slots.split_off(&sp);
            }
        }
    }
    fn find(&mut self, m: &mut Module, addr: u64, n: u64) -> Result<&mut Alloc, Stop> {
        if addr >= STACK && addr < STACK + STACK_MAX {
            if addr + n > STACK + self.stack.data.len() as u64 {
                return Err(Stop::MemErr(format!("stack overrun {addr:#x}+{n}")));
            }
            return Ok(&mut self.stack);
        }
        let ok = |a: &Alloc| addr >= a.base && addr + n <= a.base + a.size;
        if !(self.last < self.allocs.len() && ok(&self.allocs[self.last])) {
            let i = self.allocs.partition_point(|a| a.base <= addr);
            if i == 0 {
                return Err(Stop::MemErr(format!("bad address {addr:#x}")));
            }
            if !ok(&self.allocs[i - 1]) {
                return Err(Stop::MemErr(format!("out of bounds access {addr:#x}+{n}")));
            }
            self.last = i - 1;
        }
        let k = self.last;
        if self.allocs[k].freed {
            return Err(Stop::MemErr(format!("use after free {addr:#x}")));
        }
        if !self.allocs[k].init {
            self.allocs[k].init = true;
            let g = self.allocs[k].gidx as usize;
            let size = self.allocs[k].size;
            self.allocs[k].data = vec![0; size as usize];
            if m.globals[g].has_init {
                let ty = m.globals[g].ty.clone();
                let mut lx = crate::parse::Lex { s: m.globals[g].line, pos: m.globals[g].init_pos };
                let v = m.konst(&mut lx, &ty);
                let d = &mut self.allocs[k].data;
                fill(d, 0, &ty, &v);
            }
        }
        Ok(&mut self.allocs[k])
    }

    pub fn read_bytes(&mut self, m: &mut Module, addr: u64, n: u64) -> Result<Vec<u8>, Stop> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.find(m, addr, n)?;
        let o = (addr - a.base) as usize;
        if has_slot(a, o as u64, n) {
            return Err(Stop::Unsup("raw bytes of symbolic memory".into()));
        }
        match o.checked_add(n as usize).and_then(|e| a.data.get(o..e)) {
            Some(b) => Ok(b.to_vec()),
            None => Err(Stop::Unsup("read outside of an allocation".into())),
        }
    }
    pub fn write_bytes(&mut self, m: &mut Module, t: &mut Terms, addr: u64, b: &[u8]) -> Result<(), Stop> {
        if b.is_empty() {
            return Ok(());
        }
        let a = self.find(m, addr, b.len() as u64)?;
        let o = addr - a.base;
        clear(a, t, o, b.len() as u64)?;
        a.data[o as usize..o as usize + b.len()].copy_from_slice(b);
        Ok(())
    }
    pub fn copy(&mut self, m: &mut Module, t: &mut Terms, dst: u64, src: u64, n: u64) -> Result<(), Stop> {
        if n == 0 {
            return Ok(());
        }
        let a = self.find(m, src, n)?;
        let o = src - a.base;
        let bytes = a.data[o as usize..(o + n) as usize].to_vec();
        let mut sl = vec![];
        if !a.slots.is_empty() {
            split_edge(a, t, o)?;
            split_edge(a, t, o + n)?;
            for (k, v) in a.slots.range(o..o + n) {
                sl.push((k - o, v.clone()));
            }
        }
        let d = self.find(m, dst, n)?;
        let o = dst - d.base;
        clear(d, t, o, n)?;
        d.data[o as usize..(o + n) as usize].copy_from_slice(&bytes);
        for (k, v) in sl {
            d.slots.insert(o + k, v);
        }
        Ok(())
    }
    pub fn set(&mut self, m: &mut Module, t: &mut Terms, dst: u64, b: u8, n: u64) -> Result<(), Stop> {
        if n == 0 {
            return Ok(());
        }
        let d = self.find(m, dst, n)?;
        let o = dst - d.base;
        clear(d, t, o, n)?;
        d.data[o as usize..(o + n) as usize].fill(b);
        Ok(())
    }

    pub fn load(&mut self, m: &mut Module, t: &mut Terms, ty: &Ty, addr: u64) -> Result<V, Stop> {
        let n = ty.store();
        if n == 0 {
            return Ok(ty.zero());
        }
        match ty {
            Ty::Vec(k, e) if **e == Ty::Int(1) => {
                let v = self.load(m, t, &Ty::Int(*k), addr)?.int();
                return Ok(V::A(Rc::new((0..*k).map(|i| V::I((v >> i) & 1)).collect())));
            }
            Ty::Vec(k, e) => {
                let s = e.store();
                let mut v = Vec::with_capacity(*k as usize);
                for i in 0..*k as u64 {
                    v.push(self.load(m, t, e, addr + i * s)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Arr(k, e) => {
                let s = e.size();
                let mut v = vec![];
                for i in 0..*k {
                    v.push(self.load(m, t, e, addr + i * s)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = ty.field_off(i);
                    v.push(self.load(m, t, &ft, addr + o)?);
                }
                return Ok(V::A(Rc::new(v)));
            }
            _ => {}
        }
        let a = self.find(m, addr, n)?;
        let o = addr - a.base;
        if has_slot(a, o, n) {
            if let Some((s, v)) = a.slots.get(&o) {
                if *s == n {
                    let v = v.clone();
                    return conv(t, v, ty);
                }
            }
            // two or more whole slots under a wide integer load
            if n == 16 {
                let lo = self.load(m, t, &Ty::Int(64), addr)?;
                let hi = self.load(m, t, &Ty::Int(64), addr + 8)?;
                return Ok(V::A(Rc::new(vec![lo, hi])));
            }
            // two singles under a 64-bit load
            if n == 8 && *ty == Ty::Int(64) && [o, o + 4].iter().any(|k| matches!(a.slots.get(k), Some((4, V::S(x))) if t.sort(*x) == Sort::Real)) {
                let lo = self.load(m, t, &Ty::Int(32), addr)?;
                let hi = self.load(m, t, &Ty::Int(32), addr + 4)?;
                return Ok(V::A(Rc::new(vec![lo, hi])));
            }
            // assemble from bytes
            let mut acc = None;
            for i in 0..n {
                let b = byte_at(a, t, o + i)?;
                acc = Some(match acc {
                    None => b,
                    Some(x) => t.concat(b, x),
                });
            }
            let x = acc.unwrap();
            return match ty {
                Ty::Int(w) => {
                    let x = if *w as u64 == n * 8 { x } else { t.extract(*w - 1, 0, x) };
                    Ok(match t.bvc(x) {
                        Some(c) => V::I(c),
                        None => V::S(x),
                    })
                }
                _ => Err(Stop::Unsup(format!("load {ty:?} over partial symbolic bytes"))),
            };
        }
        let d = &a.data[o as usize..(o + n) as usize];
        Ok(match ty {
            Ty::Int(w) => {
                let mut b = [0u8; 16];
                b[..n as usize].copy_from_slice(d);
                V::I(u128::from_le_bytes(b) & crate::parse::msk(*w))
            }
            Ty::Ptr => V::I(u64::from_le_bytes(d.try_into().unwrap()) as u128),
            Ty::F64 => V::F(f64::from_le_bytes(d.try_into().unwrap())),
            Ty::F32 => V::F32(f32::from_le_bytes(d.try_into().unwrap())),
            _ => return Err(Stop::Unsup(format!("load {ty:?}"))),
        })
    }

    pub fn store(&mut self, m: &mut Module, t: &mut Terms, ty: &Ty, addr: u64, v: &V) -> Result<(), Stop> {
        let n = ty.store();
        if n == 0 {
            return Ok(());
        }
        match (ty, v) {
            (Ty::Vec(k, e), V::A(xs)) if **e == Ty::Int(1) => {
                let mut b = 0u128;
                for i in 0..*k {
                    if let V::I(x) = xs[i as usize] {
                        b |= x << i;
                    }
                }
                return self.store(m, t, &Ty::Int(*k), addr, &V::I(b));
            }
            (Ty::Vec(_, e), V::A(xs)) => {
                let s = e.store();
                for (i, x) in xs.iter().enumerate() {
                    self.store(m, t, e, addr + i as u64 * s, x)?;
                }
                return Ok(());
            }
            (Ty::Arr(_, e), V::A(xs)) => {
                let s = e.size();
                for (i, x) in xs.iter().enumerate() {
                    self.store(m, t, e, addr + i as u64 * s, x)?;
                }
                return Ok(());
            }
            (Ty::Struct(..), V::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, ft) = ty.field_off(i);
                    self.store(m, t, &ft, addr + o, x)?;
                }
                return Ok(());
            }
            (Ty::Int(64), V::A(xs)) => {
                self.store(m, t, &Ty::Int(32), addr, &xs[0])?;
                return self.store(m, t, &Ty::Int(32), addr + 4, &xs[1]);
            }
            (Ty::Int(128), V::A(xs)) => {
                self.store(m, t, &Ty::Int(64), addr, &xs[0])?;
                return self.store(m, t, &Ty::Int(64), addr + 8, &xs[1]);
            }
            _ => {}
        }
        let a = self.find(m, addr, n)?;
        if a.gidx != !0 && false {
            return Err(Stop::MemErr("write to constant".into()));
        }
        let o = addr - a.base;
        clear(a, t, o, n)?;
        let d = &mut a.data[o as usize..(o + n) as usize];
        match v {
            V::I(x) => d.copy_from_slice(&x.to_le_bytes()[..n as usize]),
            V::F(x) => d.copy_from_slice(&x.to_le_bytes()),
            V::F32(x) => d.copy_from_slice(&x.to_le_bytes()),
            V::U => {}
            V::S(_) | V::FB(_) => {
                let v = match v {
                    V::FB(x) if n == 4 => V::S(*x),
                    // keep whole bytes: widen i1..i7 and odd widths
                    V::S(x) => match t.sort(*x) {
                        Sort::Bv(w) if w as u64 != n * 8 => V::S(t.zext(n as u32 * 8, *x)),
                        Sort::Bool => return Err(Stop::NeedBool(*x)),
                        _ => v.clone(),
                    },
                    _ => v.clone(),
                };
                a.slots.insert(o, (n, v));
            }
            V::A(_) => return Err(Stop::Unsup(format!("store aggregate as {ty:?}"))),
        }
        Ok(())
    }
}

fn has_slot(a: &Alloc, o: u64, n: u64) -> bool {
    if a.slots.is_empty() {
        return false;
    }
    if a.slots.range(o..o + n).next().is_some() {
        return true;
    }
    if let Some((k, (s, _))) = a.slots.range(..o).next_back() {
        return k + s > o;
    }
    false
}

fn byte_at(a: &Alloc, t: &mut Terms, o: u64) -> Result<u32, Stop> {
    if let Some((k, (s, v))) = a.slots.range(..=o).next_back() {
        if k + s > o {
            return match v {
                V::S(x) if matches!(t.sort(*x), Sort::Bv(_)) => {
                    let lo = (o - k) as u32 * 8;
                    Ok(t.extract(lo + 7, lo, *x))
                }
                _ => Err(Stop::Unsup("byte of a symbolic float".into())),
            };
        }
    }
    Ok(t.bvconst(8, a.data[o as usize] as u128))
}

/// makes sure no slot straddles offset o
fn split_edge(a: &mut Alloc, t: &mut Terms, o: u64) -> Result<(), Stop> {
    if let Some((k, (s, v))) = a.slots.range(..o).next_back() {
        let (k, s) = (*k, *s);
        if k + s > o {
            match v {
                V::S(x) if matches!(t.sort(*x), Sort::Bv(_)) => {
                    let x = *x;
                    a.slots.remove(&k);
                    for i in 0..s {
                        let b = t.extract(i as u32 * 8 + 7, i as u32 * 8, x);
                        match t.bvc(b) {
                            Some(c) => a.data[(k + i) as usize] = c as u8,
                            None => {
                                a.slots.insert(k + i, (1, V::S(b)));
                            }
                        }
                    }
                }
                _ => return Err(Stop::Unsup("partial overwrite of a symbolic float".into())),
            }
        }
    }
    Ok(())
}

fn clear(a: &mut Alloc, t: &mut Terms, o: u64, n: u64) -> Result<(), Stop> {
    if a.slots.is_empty() || !has_slot(a, o, n) {
        return Ok(());
    }
    split_edge(a, t, o)?;
    split_edge(a, t, o + n)?;
    let ks: Vec<u64> = a.slots.range(o..o + n).map(|x| *x.0).collect();
    for k in ks {
        a.slots.remove(&k);
    }
    Ok(())
}

pub fn conv(t: &mut Terms, v: V, ty: &Ty) -> Result<V, Stop> {
    Ok(match (v, ty) {
        (V::S(x), Ty::Int(64) | Ty::Ptr) if t.sort(x) == Sort::Real => match t.cval[x as usize] {
            Some(c) => V::I(c.to_bits() as u128),
            None => V::FB(x),
        },
        (V::S(x), Ty::Int(32)) if t.sort(x) == Sort::Real => match t.cval[x as usize] {
            Some(c) => V::I((c as f32).to_bits() as u128),
            None => V::FB(x),
        },
        (V::FB(x), Ty::F64 | Ty::F32) => V::S(x),
        (V::S(x), Ty::F64) if t.sort(x) == Sort::Real => V::S(x),
        (V::S(x), Ty::F64) => return Err(Stop::Unsup(format!("float view of symbolic bits {x}"))),
        (V::S(x), Ty::Int(w)) => match t.sort(x) {
            Sort::Bv(sw) if sw > *w => V::S(t.extract(*w - 1, 0, x)),
            _ => V::S(x),
        },
        (v, _) => v,
    })
}

fn fill(d: &mut [u8], o: u64, ty: &Ty, v: &V) {
    match v {
        V::A(xs) => match ty {
            Ty::Struct(..) => {
                for (i, x) in xs.iter().enumerate() {
                    let (fo, ft) = ty.field_off(i);
                    fill(d, o + fo, &ft, x);
                }
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let s = e.size();
                for (i, x) in xs.iter().enumerate() {
                    fill(d, o + i as u64 * s, e, x);
                }
            }
            _ => panic!("fill"),
        },
        V::I(x) => {
            let n = ty.store() as usize;
            d[o as usize..o as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        V::F(x) => d[o as usize..o as usize + 8].copy_from_slice(&x.to_le_bytes()),
        V::F32(x) => d[o as usize..o as usize + 4].copy_from_slice(&x.to_le_bytes()),
        _ => {}
    }
}
