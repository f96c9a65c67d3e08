//! Parser for textual LLVM IR (the subset rustc emits). Function bodies are parsed on first call.
use crate::exec::V;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    F64,
    F32,
    Ptr,
    Void,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store().next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes touched by load/store
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(w) = **t {
                    ((*n as u64) * (w as u64)).div_ceil(8)
                } else {
                    *n as u64 * t.store()
                }
            }
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                o.next_multiple_of(self.align())
            }
            _ => 0,
        }
    }
    /// allocation size (stride)
    pub fn size(&self) -> u64 {
        self.store().next_multiple_of(self.align())
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, (**t).clone()),
            _ => panic!("field_off of {self:?}"),
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Int(_) | Ty::Ptr => V::I(0),
            Ty::F64 => V::F(0.0),
            Ty::F32 => V::F32(0.0),
            Ty::Arr(n, t) => V::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Vec(n, t) => V::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => V::U,
        }
    }
    pub fn undef(&self) -> V {
        match self {
            Ty::Arr(n, t) => V::A(Rc::new(vec![t.undef(); *n as usize])),
            Ty::Vec(n, t) => V::A(Rc::new(vec![t.undef(); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| t.undef()).collect())),
            _ => V::U,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
    Attr(&'a str),
    P(u8),
    Eof,
}

#[derive(Clone)]
pub struct Lex<'a> {
    pub s: &'a str,
    pub pos: usize,
}

fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'+' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s, pos: 0 }
    }
    fn name(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        if self.pos < b.len() && b[self.pos] == b'"' {
            let st = self.pos + 1;
            let mut e = st;
            while b[e] != b'"' {
                e += 1;
            }
            self.pos = e + 1;
            &self.s[st..e]
        } else {
            let st = self.pos;
            while self.pos < b.len() && wordc(b[self.pos]) {
                self.pos += 1;
            }
            &self.s[st..self.pos]
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.pos >= b.len() {
                return Tok::Eof;
            }
            let c = b[self.pos];
            if c == b' ' || c == b'\t' || c == b'\n' {
                self.pos += 1;
                continue;
            }
            if c == b';' {
                while self.pos < b.len() && b[self.pos] != b'\n' {
                    self.pos += 1;
                }
                continue;
            }
            break;
        }
        let c = b[self.pos];
        match c {
            b'%' => {
                self.pos += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.pos += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.pos += 1;
                Tok::Meta(self.name())
            }
            b'#' => {
                self.pos += 1;
                Tok::Attr(self.name())
            }
            b'"' => Tok::Str(self.name()),
            b'c' if self.pos + 1 < b.len() && b[self.pos + 1] == b'"' => {
                self.pos += 1;
                Tok::CStr(self.name())
            }
            _ if wordc(c) => Tok::Word(self.name()),
            _ => {
                self.pos += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&self) -> Tok<'a> {
        self.clone().next()
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("parse: expected '{}' got {:?} in: {}", c as char, t, &self.s[..self.s.len().min(300)]);
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FPTrunc,
    FPExt,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(&'static str),
    Ind(Op),
    Asm(&'static str),
    Panic(&'static str),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Op, Op),
    FNeg(Ty, Op),
    ICmp(&'static str, Ty, Op, Op),
    FCmp(&'static str, Ty, Op, Op),
    Cast(Cast, Ty, Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u64, u32)>),
    Alloca(u64, u64, Option<(Op, u64)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Call(Box<(Callee, Ty, Vec<(Ty, Op)>, Option<u32>)>),
    Select(Ty, Op, Op, Op),
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>),
    ExtractElem(Op, Op),
    InsertElem(Op, Op, Op),
    Shuffle(Op, Op, Vec<Option<u32>>),
    AtomicRmw(&'static str, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Unreachable,
    Copy(Op),
    Nop,
    Unsupported(String),
}

pub struct Inst {
    pub dst: u32,
    pub ins: Ins,
    pub dbg: u32,
}
pub const NONE: u32 = u32::MAX;

pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>,
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub code: Vec<Inst>,
}

pub struct Body {
    pub nregs: u32,
    pub nargs: u32,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: &'static str,
    pub header: &'static str,
    pub body_text: Option<&'static str>,
    pub body: Option<Rc<Body>>,
    pub is_panic: bool,
}

pub struct Global {
    pub name: &'static str,
    pub line: &'static str,
    pub ty: Ty,
    pub init_pos: usize,
    pub has_init: bool,
    pub addr: u64,
}

#[derive(Clone, Copy)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub syms: HashMap<&'static str, Sym>,
    pub aliases: HashMap<&'static str, &'static str>,
    types: HashMap<&'static str, &'static str>,
    tcache: HashMap<&'static str, Ty>,
    pub md: HashMap<u32, &'static str>,
    pub glob_end: u64,
}

pub const FBASE: u64 = 0x4000_0000_0000;
pub const GBASE: u64 = 0x0000_0001_0000;

fn is_panic_name(n: &str) -> bool {
    (n.contains("panicking") && !n.contains("panic_count") && !n.contains("panicking3try") && !n.contains("panicking9panicking"))
        || n.contains("rust_begin_unwind")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("handle_alloc_error")
        || n.contains("panic_failed_assert")
        || n.contains("rust_panic")
}

fn numlike(w: &str) -> bool {
    let b = w.as_bytes();
    b[0].is_ascii_digit() || (b[0] == b'-' && b.len() > 1 && b[1].is_ascii_digit())
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module {
            funcs: vec![],
            globals: vec![],
            syms: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            tcache: HashMap::new(),
            md: HashMap::new(),
            glob_end: 0,
        };
        let mut glines: Vec<(&'static str, &'static str)> = vec![];
        let mut pos = 0;
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let e = match text[pos..].find('\n') {
                Some(k) => pos + k,
                None => bytes.len(),
            };
            let line = &text[pos..e];
            let next = e + 1;
            match bytes[pos] {
                b'%' => {
                    let mut lx = Lex::new(line);
                    if let Tok::Local(n) = lx.next() {
                        lx.next();
                        lx.next();
                        m.types.insert(n, &line[lx.pos..]);
                    }
                }
                b'@' => {
                    let mut lx = Lex::new(line);
                    if let Tok::Global(n) = lx.next() {
                        lx.expect(b'=');
                        glines.push((n, &line[lx.pos..]));
                    }
                }
                b'd' if line.starts_with("define ") => {
                    let at = line.find('@').unwrap();
                    let mut lx = Lex::new(&line[at..]);
                    let name = match lx.next() {
                        Tok::Global(n) => n,
                        _ => panic!(),
                    };
                    let hdr = &line[at + lx.pos..];
                    let bend = next + text[next..].find("\n}\n").expect("function end") + 1;
                    let idx = m.funcs.len() as u32;
                    m.funcs.push(Func {
                        name,
                        header: hdr,
                        body_text: Some(&text[next..bend]),
                        body: None,
                        is_panic: is_panic_name(name),
                    });
                    m.syms.insert(name, Sym::F(idx));
                    pos = bend + 2;
                    continue;
                }
                b'd' if line.starts_with("declare ") => {
                    let at = line.find('@').unwrap();
                    let mut lx = Lex::new(&line[at..]);
                    if let Tok::Global(name) = lx.next() {
                        let idx = m.funcs.len() as u32;
                        m.funcs.push(Func { name, header: "", body_text: None, body: None, is_panic: is_panic_name(name) });
                        m.syms.insert(name, Sym::F(idx));
                    }
                }
                b'!' => {
                    if let Some(k) = line.find(" = ") {
                        if let Ok(n) = line[1..k].parse::<u32>() {
                            m.md.insert(n, &line[k + 3..]);
                        }
                    }
                }
                _ => {}
            }
            pos = next;
        }
        let mut addr = GBASE;
        for (n, rest) in glines {
            let mut lx = Lex::new(rest);
            let mut ext = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Word("global") | Tok::Word("constant") => break,
                    Tok::Word("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                    Tok::P(b'(') => {
                        lx.pos -= 1;
                        lx.skip_parens()
                    }
                    Tok::Eof => panic!("global {n}"),
                    _ => {}
                }
            }
            if alias {
                let _ = m.ty(&mut lx);
                lx.expect(b',');
                lx.next();
                if let Tok::Global(t) = lx.next() {
                    m.aliases.insert(n, t);
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let al = ty.align().max(16);
            addr = addr.next_multiple_of(al);
            let idx = m.globals.len() as u32;
            let sz = ty.size().max(1);
            m.globals.push(Global { name: n, line: rest, ty, init_pos: lx.pos, has_init: !ext, addr });
            m.syms.insert(n, Sym::G(idx));
            addr += sz + 16;
        }
        m.glob_end = addr.next_multiple_of(4096) + 4096;
        m
    }

    pub fn ty(&mut self, lx: &mut Lex<'static>) -> Ty {
        let t = match lx.next() {
            Tok::Word(w) => match w {
                "double" => Ty::F64,
                "float" => Ty::F32,
                "ptr" => Ty::Ptr,
                "void" => Ty::Void,
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => Ty::Other,
            },
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Word(w) => w.parse().unwrap(),
                    _ => panic!(),
                };
                lx.next();
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if lx.peek() == Tok::P(b'{') {
                    lx.next();
                    let f = self.tylist(lx);
                    lx.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match lx.next() {
                        Tok::Word(w) => w.parse().unwrap(),
                        t => panic!("vec type {t:?} {}", lx.s),
                    };
                    lx.next();
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P(b'{') => {
                let f = self.tylist(lx);
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Local(n) => {
                if let Some(t) = self.tcache.get(n) {
                    t.clone()
                } else {
                    let d = *self.types.get(n).unwrap_or_else(|| panic!("type {n}"));
                    let mut l2 = Lex::new(d);
                    let t = self.ty(&mut l2);
                    self.tcache.insert(n, t.clone());
                    t
                }
            }
            t => panic!("type? {t:?} in {}", &lx.s[..lx.s.len().min(300)]),
        };
        // function type
        if lx.peek() == Tok::P(b'(') {
            lx.skip_parens();
        }
        t
    }
    fn tylist(&mut self, lx: &mut Lex<'static>) -> Vec<Ty> {
        let mut f = vec![];
        if lx.eat(b'}') {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(b'}');
            return f;
        }
    }

    pub fn addr_of(&self, mut n: &'static str) -> u64 {
        if let Some(t) = self.aliases.get(n) {
            n = t;
        }
        match self.syms.get(n) {
            Some(Sym::F(i)) => FBASE + 16 * *i as u64,
            Some(Sym::G(i)) => self.globals[*i as usize].addr,
            None => panic!("unknown symbol {n}"),
        }
    }

    pub fn konst(&mut self, lx: &mut Lex<'static>, ty: &Ty) -> V {
        match lx.next() {
            Tok::Word(w) => match w {
                "null" => V::I(0),
                "true" => V::I(1),
                "false" => V::I(0),
                "none" => V::U,
                "undef" | "poison" => ty.undef(),
                "zeroinitializer" => ty.zero(),
                "splat" => {
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    lx.expect(b')');
                    match ty {
                        Ty::Vec(n, _) => V::A(Rc::new(vec![v; *n as usize])),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                        if lx.peek() == Tok::P(b'(') {
                            // inrange(...) or start of operands
                            let mut l2 = lx.clone();
                            l2.next();
                            if let Tok::Word(x) = l2.peek() {
                                if numlike(x) {
                                    lx.skip_parens();
                                }
                            }
                        }
                    }
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    lx.expect(b',');
                    let bt = self.ty(lx);
                    let base = self.konst(lx, &bt).int() as u64;
                    let mut idx = vec![];
                    while lx.eat(b',') {
                        while let Tok::Word("inrange") = lx.peek() {
                            lx.next();
                        }
                        let it = self.ty(lx);
                        let v = self.konst(lx, &it);
                        idx.push(sext(&it, v.int()));
                    }
                    lx.expect(b')');
                    let mut off = 0i64;
                    let mut cur = t;
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += *i as i64 * cur.size() as i64;
                        } else {
                            let (o, nt) = match &cur {
                                Ty::Struct(..) => cur.field_off(*i as usize),
                                Ty::Arr(_, t) | Ty::Vec(_, t) => ((*i as i64 * t.size() as i64) as u64, (**t).clone()),
                                _ => panic!("gep const"),
                            };
                            off += o as i64;
                            cur = nt;
                        }
                    }
                    V::I(base.wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    lx.next(); // to
                    let to = self.ty(lx);
                    lx.expect(b')');
                    match (&to, v) {
                        (Ty::Int(w), V::I(x)) => V::I(x & msk(*w)),
                        (_, v) => v,
                    }
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let a = self.konst(lx, &t).int();
                    lx.expect(b',');
                    let t2 = self.ty(lx);
                    let b = self.konst(lx, &t2).int();
                    lx.expect(b')');
                    let wd = match t {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    let r = match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "mul" => a.wrapping_mul(b),
                        _ => a << b,
                    };
                    V::I(r & msk(wd))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(lx, ty),
                _ => match ty {
                    Ty::F64 => V::F(if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        w.parse().unwrap()
                    }),
                    Ty::F32 => V::F32(if let Some(h) = w.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32
                    } else {
                        w.parse::<f64>().unwrap() as f32
                    }),
                    Ty::Int(wd) => {
                        if let Some(h) = w.strip_prefix("u0x") {
                            V::I(u128::from_str_radix(h, 16).unwrap() & msk(*wd))
                        } else if let Some(n) = w.strip_prefix('-') {
                            V::I((n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 & msk(*wd))
                        } else {
                            V::I(w.parse::<u128>().unwrap_or_else(|_| panic!("int const {w}")) & msk(*wd))
                        }
                    }
                    _ => panic!("const {w} of {ty:?} in {}", &lx.s[..lx.s.len().min(200)]),
                },
            },
            Tok::Global(n) => V::I(self.addr_of(n) as u128),
            Tok::CStr(s) => {
                let b = s.as_bytes();
                let mut v = vec![];
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(V::I(b'\\' as u128));
                            i += 2;
                        } else {
                            v.push(V::I(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap() as u128));
                            i += 3;
                        }
                    } else {
                        v.push(V::I(b[i] as u128));
                        i += 1;
                    }
                }
                V::A(Rc::new(v))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.klist(lx, b'}');
                    lx.expect(b'>');
                    V::A(Rc::new(v))
                } else {
                    V::A(Rc::new(self.klist(lx, b'>')))
                }
            }
            Tok::P(b'{') => V::A(Rc::new(self.klist(lx, b'}'))),
            Tok::P(b'[') => V::A(Rc::new(self.klist(lx, b']'))),
            t => panic!("const? {t:?} ty {ty:?} in {}", &lx.s[..lx.s.len().min(300)]),
        }
    }
    fn klist(&mut self, lx: &mut Lex<'static>, end: u8) -> Vec<V> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(end);
            return v;
        }
    }

    pub fn body(&mut self, f: u32) -> Rc<Body> {
        if let Some(b) = &self.funcs[f as usize].body {
            return b.clone();
        }
        let text = self.funcs[f as usize].body_text.unwrap_or_else(|| panic!("no body for {}", self.funcs[f as usize].name));
        let hdr = self.funcs[f as usize].header;
        let mut fp = FnParser { m: self, regs: HashMap::new(), labels: HashMap::new() };
        let b = Rc::new(fp.parse(hdr, text));
        self.funcs[f as usize].body = Some(b.clone());
        b
    }
}

pub fn msk(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(t: &Ty, v: u128) -> i128 {
    let w = match t {
        Ty::Int(w) => *w,
        _ => 64,
    };
    sxt(w, v)
}
pub fn sxt(w: u32, v: u128) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

struct FnParser<'m> {
    m: &'m mut Module,
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
}

fn intern(s: &str) -> &'static str {
    macro_rules! t { ($($x:literal),*) => { match s { $($x => $x,)* _ => Box::leak(s.to_string().into_boxed_str()) } } }
    t!(
        "eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge", "oeq", "one", "olt", "ole", "ogt", "oge", "ord", "uno",
        "ueq", "une", "true", "false", "xchg", "add", "sub", "and", "or", "xor", "max", "min", "umax", "umin", "nand"
    )
}

impl FnParser<'_> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'static str) -> u32 {
        *self.labels.get(n).unwrap_or_else(|| panic!("label {n}"))
    }
    fn parse(&mut self, hdr: &'static str, text: &'static str) -> Body {
        let mut lx = Lex::new(hdr);
        lx.expect(b'(');
        let mut nargs = 0;
        let mut unnamed = 0u32;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == Tok::Word("...") {
                    lx.next();
                } else {
                    let _ = self.m.ty(&mut lx);
                    self.skip_attrs(&mut lx);
                    match lx.peek() {
                        Tok::Local(n) => {
                            lx.next();
                            self.reg(n);
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                unnamed += 1;
                            }
                        }
                        _ => {
                            let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                            self.reg(n);
                            unnamed += 1;
                        }
                    }
                    nargs += 1;
                }
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        // split into lines, find labels
        let mut blocks: Vec<Vec<&'static str>> = vec![];
        let lines: Vec<&'static str> = text.lines().collect();
        let mut i = 0;
        let base = text.as_ptr() as usize;
        let mut first = true;
        while i < lines.len() {
            let l = lines[i];
            if l.is_empty() || l.starts_with(';') || l.trim_start().starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let mut lx = Lex::new(l);
                let n = if l.starts_with('"') {
                    match lx.next() {
                        Tok::Str(s) => s,
                        _ => panic!(),
                    }
                } else {
                    match lx.next() {
                        Tok::Word(s) => s,
                        t => panic!("label line {t:?} {l}"),
                    }
                };
                let k = blocks.len() as u32;
                self.labels.insert(n, k);
                blocks.push(vec![]);
                first = false;
                i += 1;
                continue;
            }
            if first {
                let n: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                self.labels.insert(n, 0);
                blocks.push(vec![]);
                first = false;
            }
            // join continuation lines
            let start = l.as_ptr() as usize - base;
            let mut end = start + l.len();
            let tl = l.trim_start();
            if tl.starts_with("switch ") && !l.contains(']') {
                while !lines[i].contains(']') {
                    i += 1;
                }
                end = lines[i].as_ptr() as usize - base + lines[i].len();
            }
            while i + 1 < lines.len() && lines[i + 1].starts_with("          ") {
                i += 1;
                end = lines[i].as_ptr() as usize - base + lines[i].len();
            }
            blocks.last_mut().unwrap().push(&text[start..end]);
            i += 1;
        }
        let mut out = vec![];
        for b in &blocks {
            let mut blk = Block { phis: vec![], code: vec![] };
            for l in b {
                self.ins(l, &mut blk);
            }
            out.push(blk);
        }
        Body { nregs: self.regs.len() as u32, nargs, blocks: out }
    }
    fn skip_attrs(&mut self, lx: &mut Lex<'static>) {
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    if numlike(w)
                        || matches!(
                            w,
                            "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                                | "inttoptr" | "sub" | "add" | "trunc" | "bitcast" | "asm" | "splat" | "xor" | "and" | "or" | "none"
                        )
                    {
                        return;
                    }
                    lx.next();
                    if w == "align" {
                        if let Tok::Word(n) = lx.peek() {
                            if numlike(n) {
                                lx.next();
                            }
                        }
                    }
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Attr(_) => {
                    lx.next();
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn op(&mut self, lx: &mut Lex<'static>, ty: &Ty) -> Op {
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            Op::Reg(self.reg(n))
        } else {
            Op::C(self.m.konst(lx, ty))
        }
    }
    fn tyop(&mut self, lx: &mut Lex<'static>) -> (Ty, Op) {
        let t = self.m.ty(lx);
        let o = self.op(lx, &t);
        (t, o)
    }
    fn lbl(&mut self, lx: &mut Lex<'static>) -> u32 {
        let t = lx.next();
        assert_eq!(t, Tok::Word("label"));
        match lx.next() {
            Tok::Local(n) => self.label(n),
            _ => panic!(),
        }
    }
    fn ins(&mut self, l: &'static str, blk: &mut Block) {
        let mut dbg = 0;
        if let Some(k) = l.rfind("!dbg !") {
            let s = &l[k + 6..];
            let e = s.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(s.len());
            dbg = s[..e].parse().unwrap_or(0);
        }
        let mut lx = Lex::new(l);
        let mut dst = NONE;
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            lx.expect(b'=');
            dst = self.reg(n);
        }
        let lx = &mut lx;
        let mut op = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("instr? {t:?} {l}"),
        };
        if matches!(op, "tail" | "musttail" | "notail") {
            lx.next();
            op = "call";
        }
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd"
            | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Word(w) = lx.peek() {
                    if matches!(
                        w,
                        "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                    ) {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let (t, a) = self.tyop(lx);
                lx.expect(b',');
                let b = self.op(lx, &t);
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                Ins::Bin(o, t, a, b)
            }
            "fneg" => {
                let (t, a) = self.tyop(lx);
                Ins::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                let mut p = match lx.next() {
                    Tok::Word(w) => w,
                    _ => panic!(),
                };
                while matches!(p, "samesign" | "fast" | "nnan" | "ninf" | "nsz") {
                    p = match lx.next() {
                        Tok::Word(w) => w,
                        _ => panic!(),
                    };
                }
                let (t, a) = self.tyop(lx);
                lx.expect(b',');
                let b = self.op(lx, &t);
                if op == "icmp" {
                    Ins::ICmp(intern(p), t, a, b)
                } else {
                    Ins::FCmp(intern(p), t, a, b)
                }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr"
            | "bitcast" => {
                while let Tok::Word(w) = lx.peek() {
                    if matches!(w, "nuw" | "nsw" | "nneg") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let (t, a) = self.tyop(lx);
                lx.next();
                let to = self.m.ty(lx);
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptrunc" => Cast::FPTrunc,
                    "fpext" => Cast::FPExt,
                    "fptoui" => Cast::FPToUI,
                    "fptosi" => Cast::FPToSI,
                    "uitofp" => Cast::UIToFP,
                    "sitofp" => Cast::SIToFP,
                    "ptrtoint" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    _ => Cast::BitCast,
                };
                Ins::Cast(c, t, to, a)
            }
            "load" => {
                while lx.eatw("atomic") || lx.eatw("volatile") {}
                let t = self.m.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tyop(lx);
                Ins::Load(t, p)
            }
            "store" => {
                while lx.eatw("atomic") || lx.eatw("volatile") {}
                let (t, v) = self.tyop(lx);
                lx.expect(b',');
                let (_, p) = self.tyop(lx);
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                while let Tok::Word(w) = lx.peek() {
                    if matches!(w, "inbounds" | "nuw" | "nusw") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let t = self.m.ty(lx);
                lx.expect(b',');
                let (bt, base) = self.tyop(lx);
                if matches!(bt, Ty::Vec(..)) {
                    blk.code.push(Inst { dst, ins: Ins::Unsupported("vector gep".into()), dbg });
                    return;
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = t;
                let mut k = 0;
                while lx.eat(b',') {
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                    let (it, o) = self.tyop(lx);
                    let w = match it {
                        Ty::Int(w) => w,
                        _ => 64,
                    };
                    let stride;
                    let next;
                    if k == 0 {
                        stride = cur.size();
                        next = cur.clone();
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let i = match &o {
                                    Op::C(v) => v.int() as usize,
                                    _ => panic!("struct gep"),
                                };
                                let (fo, nt) = cur.field_off(i);
                                off += fo as i64;
                                cur = nt;
                                k += 1;
                                continue;
                            }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                stride = t.size();
                                next = (**t).clone();
                            }
                            _ => panic!("gep into {cur:?}"),
                        }
                    }
                    match &o {
                        Op::C(V::I(v)) => off = off.wrapping_add((sxt(w, *v) as i64).wrapping_mul(stride as i64)),
                        _ => dynv.push((o, stride, w)),
                    }
                    cur = next;
                    k += 1;
                }
                Ins::Gep(base, off, dynv)
            }
            "alloca" => {
                lx.eatw("inalloca");
                let t = self.m.ty(lx);
                let mut cnt = None;
                let mut al = t.align();
                while lx.eat(b',') {
                    match lx.peek() {
                        Tok::Word("align") => {
                            lx.next();
                            if let Tok::Word(n) = lx.next() {
                                al = n.parse().unwrap();
                            }
                        }
                        Tok::Meta(_) => break,
                        _ => {
                            let (_, o) = self.tyop(lx);
                            cnt = Some((o, t.size()));
                        }
                    }
                }
                Ins::Alloca(t.size(), al, cnt)
            }
            "br" => {
                if lx.peek() == Tok::Word("label") {
                    Ins::Br(self.lbl(lx))
                } else {
                    let (_, c) = self.tyop(lx);
                    lx.expect(b',');
                    let a = self.lbl(lx);
                    lx.expect(b',');
                    let b = self.lbl(lx);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(lx);
                let w = match t {
                    Ty::Int(w) => w,
                    _ => 64,
                };
                lx.expect(b',');
                let d = self.lbl(lx);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let (_, c) = self.tyop(lx);
                    lx.expect(b',');
                    let b = self.lbl(lx);
                    if let Op::C(V::I(c)) = c {
                        cs.push((c, b));
                    }
                }
                Ins::Switch(w, v, d, cs)
            }
            "ret" => {
                let t = self.m.ty(lx);
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.op(lx, &t)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Unreachable,
            "landingpad" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "freeze" => {
                let (_, a) = self.tyop(lx);
                Ins::Copy(a)
            }
            "select" => {
                while let Tok::Word(w) = lx.peek() {
                    if matches!(w, "fast" | "nnan" | "ninf" | "nsz") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let (_, c) = self.tyop(lx);
                lx.expect(b',');
                let (t, a) = self.tyop(lx);
                lx.expect(b',');
                let (_, b) = self.tyop(lx);
                Ins::Select(t, c, a, b)
            }
            "extractvalue" => {
                let (_, a) = self.tyop(lx);
                let idx = self.idxs(lx);
                Ins::ExtractValue(a, idx)
            }
            "insertvalue" => {
                let (_, a) = self.tyop(lx);
                lx.expect(b',');
                let (_, b) = self.tyop(lx);
                let idx = self.idxs(lx);
                Ins::InsertValue(a, b, idx)
            }
            "extractelement" => {
                let (_, a) = self.tyop(lx);
                lx.expect(b',');
                let (_, i) = self.tyop(lx);
                Ins::ExtractElem(a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyop(lx);
                lx.expect(b',');
                let (_, b) = self.tyop(lx);
                lx.expect(b',');
                let (_, i) = self.tyop(lx);
                Ins::InsertElem(a, b, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyop(lx);
                lx.expect(b',');
                let (_, b) = self.tyop(lx);
                lx.expect(b',');
                let t = self.m.ty(lx);
                let mk = self.m.konst(lx, &t);
                let mask = match mk {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::I(i) => Some(*i as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => panic!(),
                };
                Ins::Shuffle(a, b, mask)
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let o = match lx.next() {
                    Tok::Word(w) => intern(w),
                    _ => panic!(),
                };
                let (_, p) = self.tyop(lx);
                lx.expect(b',');
                let (t, v) = self.tyop(lx);
                Ins::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                while lx.eatw("weak") || lx.eatw("volatile") {}
                let (_, p) = self.tyop(lx);
                lx.expect(b',');
                let (t, a) = self.tyop(lx);
                lx.expect(b',');
                let (_, b) = self.tyop(lx);
                Ins::CmpXchg(t, p, a, b)
            }
            "phi" => {
                while let Tok::Word(w) = lx.peek() {
                    if matches!(w, "fast" | "nnan" | "ninf" | "nsz") {
                        lx.next();
                    } else {
                        break;
                    }
                }
                let t = self.m.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.op(lx, &t);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Tok::Local(n) => self.label(n),
                        _ => panic!(),
                    };
                    lx.expect(b']');
                    inc.push((b, v));
                    if lx.peek() == Tok::P(b',') {
                        let mut l2 = lx.clone();
                        l2.next();
                        if l2.peek() == Tok::P(b'[') {
                            lx.next();
                            continue;
                        }
                    }
                    break;
                }
                blk.phis.push(Phi { dst, inc });
                return;
            }
            "call" | "invoke" => match self.call(lx, op == "invoke") {
                Some(i) => i,
                None => return,
            },
            _ => Ins::Unsupported(l.chars().take(200).collect()),
        };
        blk.code.push(Inst { dst, ins, dbg });
    }
    fn idxs(&mut self, lx: &mut Lex<'static>) -> Vec<u32> {
        let mut v = vec![];
        while lx.eat(b',') {
            match lx.peek() {
                Tok::Word(w) if numlike(w) => {
                    lx.next();
                    v.push(w.parse().unwrap())
                }
                _ => break,
            }
        }
        v
    }
    fn call(&mut self, lx: &mut Lex<'static>, invoke: bool) -> Option<Ins> {
        // calling convention, fast-math flags and return attributes up to the type
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    let is_ty = matches!(w, "double" | "float" | "ptr" | "void" | "half" | "metadata" | "x86_fp80" | "token")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if is_ty {
                        break;
                    }
                    lx.next();
                    if w == "align" {
                        if let Tok::Word(n) = lx.peek() {
                            if numlike(n) {
                                lx.next();
                            }
                        }
                    }
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Attr(_) => {
                    lx.next();
                }
                Tok::Str(_) => {
                    lx.next();
                }
                _ => break,
            }
        }
        let rt = self.m.ty(lx);
        let callee = match lx.next() {
            Tok::Global(n) => {
                let n = self.m.aliases.get(n).copied().unwrap_or(n);
                match self.m.syms.get(n) {
                    Some(Sym::F(i)) => {
                        let f = &self.m.funcs[*i as usize];
                        if f.is_panic {
                            Callee::Panic(f.name)
                        } else if f.body_text.is_some() && !crate::exec::intercepted(n) {
                            Callee::Func(*i)
                        } else {
                            if n.starts_with("llvm.lifetime")
                                || n.starts_with("llvm.experimental.noalias")
                                || n == "llvm.assume"
                                || n.starts_with("llvm.dbg")
                                || n.starts_with("llvm.prefetch")
                                || n.starts_with("llvm.invariant")
                            {
                                return None;
                            }
                            Callee::Ext(f.name)
                        }
                    }
                    _ => panic!("callee {n}"),
                }
            }
            Tok::Local(n) => Callee::Ind(Op::Reg(self.reg(n))),
            Tok::Word("asm") => {
                let mut txt = "";
                loop {
                    match lx.peek() {
                        Tok::Word(_) => {
                            lx.next();
                        }
                        Tok::Str(s) => {
                            lx.next();
                            txt = s;
                            lx.expect(b',');
                            lx.next();
                            break;
                        }
                        t => panic!("asm {t:?}"),
                    }
                }
                Callee::Asm(txt)
            }
            Tok::Word("inttoptr") => {
                lx.skip_parens();
                Callee::Ind(Op::C(V::I(0)))
            }
            t => panic!("callee {t:?} in {}", lx.s),
        };
        lx.expect(b'(');
        let mut args = vec![];
        if !lx.eat(b')') {
            loop {
                let t = self.m.ty(lx);
                if t == Ty::Other {
                    // metadata
                    let mut d = 0;
                    loop {
                        match lx.peek() {
                            Tok::P(b',') if d == 0 => break,
                            Tok::P(b')') if d == 0 => break,
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') => d -= 1,
                            Tok::Eof => panic!(),
                            _ => {}
                        }
                        lx.next();
                    }
                    args.push((t, Op::C(V::U)));
                } else {
                    self.skip_attrs(lx);
                    let o = self.op(lx, &t);
                    args.push((t, o));
                }
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        let mut norm = None;
        if invoke {
            while lx.peek() != Tok::Word("to") {
                if lx.next() == Tok::Eof {
                    panic!("invoke {}", lx.s);
                }
            }
            lx.next();
            norm = Some(self.lbl(lx));
        }
        Some(Ins::Call(Box::new((callee, rt, args, norm))))
    }
}
