//! Symbolic interpreter: one path per run; every branch on a symbolic value is decided by the driver over stdio.
use crate::mem::Mem;
use crate::parse::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, Write};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    /// undef / poison
    U,
    I(u128),
    F(f64),
    F32(f32),
    /// symbolic term (sort known to the term table)
    S(Nid),
    /// the 64 bits of a symbolic real
    FB(Nid),
    A(Rc<Vec<V>>),
}

impl V {
    pub fn int(&self) -> u128 {
        match self {
            V::I(x) => *x,
            _ => 0,
        }
    }
}

#[derive(Debug)]
pub enum Stop {
    MemErr(String),
    Unsup(String),
    NeedBool(Nid),
    Panic(String),
    AssumeFail,
    Abort(String),
    Limit,
}
type R<T> = Result<T, Stop>;

/// defined functions that are replaced by a model all the same
pub fn intercepted(_n: &str) -> bool {
    false
}

pub struct Exec {
    pub m: Module,
    pub t: Terms,
    pub mem: Mem,
    pub steps: u64,
    pub total_steps: u64,
    pub limit: u64,
    decided: HashMap<Nid, bool>,
    pub visited: BTreeMap<u32, Vec<bool>>,
    pub stack: Vec<u32>,
    pub seed: u64,
    rng: u64,
    pub files: HashMap<String, Vec<u8>>,
    fds: HashMap<i32, (String, usize)>,
    nextfd: i32,
    errno: u64,
    pub magic: HashMap<u64, Nid>,
    specific: HashMap<u64, u64>,
    inp: std::io::StdinLock<'static>,
    pub nbranch: u64,
}

fn fexact(op: BinOp, a: f64, b: f64, r: f64) -> bool {
    if !r.is_finite() {
        return true;
    }
    match op {
        BinOp::FAdd | BinOp::FSub => {
            let b = if op == BinOp::FSub { -b } else { b };
            let bb = r - a;
            let e = (a - (r - bb)) + (b - bb);
            e == 0.0
        }
        BinOp::FMul => a.mul_add(b, -r) == 0.0 && (r != 0.0 || a == 0.0 || b == 0.0),
        BinOp::FDiv => r.mul_add(b, -a) == 0.0,
        _ => true,
    }
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let mem = Mem::new(&m);
        Exec {
            m,
            t: Terms::new(),
            mem,
            steps: 0,
            total_steps: 0,
            limit: 400_000_000,
            decided: HashMap::new(),
            visited: BTreeMap::new(),
            stack: vec![],
            seed: 1,
            rng: 1,
            files: HashMap::new(),
            fds: HashMap::new(),
            nextfd: 10,
            errno: 0,
            magic: HashMap::new(),
            specific: HashMap::new(),
            inp: std::io::stdin().lock(),
            nbranch: 0,
        }
    }
    pub fn reset(&mut self) {
        self.mem.reset();
        self.decided.clear();
        self.total_steps += self.steps;
        self.steps = 0;
        self.stack.clear();
        self.rng = self.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        self.fds.clear();
        self.nextfd = 10;
        self.errno = 0;
        self.specific.clear();
    }
    pub fn say(&mut self, s: &str) {
        let mut o = std::io::stdout().lock();
        let r = o.write_all(self.t.out.as_bytes()).and_then(|_| o.write_all(s.as_bytes())).and_then(|_| o.write_all(b"\n")).and_then(|_| o.flush());
        self.t.out.clear();
        if r.is_err() {
            std::process::exit(0);
        }
    }
    pub fn emit(&mut self, s: &str) {
        self.t.out.push_str(s);
        self.t.out.push('\n');
    }
    pub fn ask(&mut self, s: &str) -> String {
        self.say(s);
        let mut l = String::new();
        if self.inp.read_line(&mut l).unwrap() == 0 {
            std::process::exit(3);
        }
        l.trim().to_string()
    }
    pub fn readline(&mut self) -> Option<String> {
        let mut l = String::new();
        if self.inp.read_line(&mut l).unwrap() == 0 {
            return None;
        }
        Some(l.trim().to_string())
    }

    fn decide(&mut self, n: Nid) -> R<bool> {
        if let Some(b) = self.t.bool_val(n) {
            return Ok(b);
        }
        let (core, neg) = match self.t.nodes[n as usize] {
            Node::Not(x) => (x, true),
            _ => (n, false),
        };
        if let Some(b) = self.decided.get(&core) {
            return Ok(*b ^ neg);
        }
        self.nbranch += 1;
        let f = self.stack.last().map(|f| self.m.funcs[*f as usize].name).unwrap_or("?");
        let r = self.ask(&format!("B {core} {f}"));
        match r.as_str() {
            "1" => {
                self.decided.insert(core, true);
                Ok(!neg)
            }
            "0" => {
                self.decided.insert(core, false);
                Ok(neg)
            }
            _ => Err(Stop::AssumeFail),
        }
    }
    fn cond(&mut self, v: &V) -> R<bool> {
        match v {
            V::I(x) => Ok(x & 1 == 1),
            V::S(n) => self.decide(*n),
            V::U => Err(Stop::Unsup("branch on undef".into())),
            _ => Err(Stop::Unsup(format!("branch on {v:?}"))),
        }
    }
    fn rn(&mut self, v: &V) -> R<Nid> {
        match v {
            V::F(x) => Ok(self.t.rconst(*x)),
            V::S(n) if self.t.sort(*n) == Sort::Real => Ok(*n),
            V::FB(n) => Ok(*n),
            V::I(x) => Ok(self.t.rconst(f64::from_bits(*x as u64))),
            _ => Err(Stop::Unsup(format!("real from {v:?}"))),
        }
    }
    fn bn(&mut self, v: &V) -> R<Nid> {
        match v {
            V::I(x) => Ok(self.t.bconst(x & 1 == 1)),
            V::S(n) => Ok(*n),
            V::U => Ok(self.t.bconst(false)),
            _ => Err(Stop::Unsup(format!("bool from {v:?}"))),
        }
    }
    fn bvn(&mut self, w: u32, v: &V) -> R<Nid> {
        match v {
            V::I(x) => Ok(self.t.bvconst(w, *x)),
            V::S(n) => match self.t.sort(*n) {
                Sort::Bv(_) => Ok(*n),
                Sort::Bool => {
                    let b = self.decide(*n)?;
                    Ok(self.t.bvconst(w, b as u128))
                }
                _ => Err(Stop::Unsup("bits of a symbolic real in integer arithmetic".into())),
            },
            V::FB(_) => Err(Stop::Unsup("bits of a symbolic real in integer arithmetic".into())),
            V::U => Ok(self.t.bvconst(w, 0)),
            _ => Err(Stop::Unsup(format!("bv from {v:?}"))),
        }
    }
    fn bvv(&self, n: Nid) -> V {
        match self.t.bvc(n) {
            Some(c) => V::I(c),
            None => V::S(n),
        }
    }
    fn bv_bool(&self, n: Nid) -> V {
        match self.t.bool_val(n) {
            Some(b) => V::I(b as u128),
            None => V::S(n),
        }
    }
    fn unmagic(&self, v: V) -> V {
        if let V::F(x) = v {
            if !self.magic.is_empty() {
                if let Some(n) = self.magic.get(&x.to_bits()) {
                    return V::S(*n);
                }
            }
        }
        v
    }
    fn fbin(&mut self, op: BinOp, a: &V, b: &V) -> R<V> {
        let (a, b) = if self.magic.is_empty() { (a.clone(), b.clone()) } else { (self.unmagic(a.clone()), self.unmagic(b.clone())) };
        if let (V::F(x), V::F(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::FAdd => x + y,
                BinOp::FSub => x - y,
                BinOp::FMul => x * y,
                BinOp::FDiv => x / y,
                _ => x % y,
            };
            if !x.is_finite() || !y.is_finite() || fexact(op, x, y, r) {
                return Ok(V::F(r));
            }
        }
        if let (V::F32(x), V::F32(y)) = (&a, &b) {
            return Ok(V::F32(match op {
                BinOp::FAdd => x + y,
                BinOp::FSub => x - y,
                BinOp::FMul => x * y,
                BinOp::FDiv => x / y,
                _ => x % y,
            }));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        // infinities and NaN against finite symbolic values
        for (i, x) in [&a, &b].into_iter().enumerate() {
            if let V::F(c) = x {
                if c.is_nan() {
                    return Ok(V::F(*c));
                }
                if c.is_infinite() {
                    let other = if i == 0 { &b } else { &a };
                    return match op {
                        BinOp::FAdd => Ok(V::F(*c)),
                        BinOp::FSub => Ok(V::F(if i == 0 { *c } else { -*c })),
                        BinOp::FDiv if i == 1 => Ok(V::F(0.0)),
                        _ => {
                            let n = self.rn(other)?;
                            let z = self.t.rconst(0.0);
                            let lt = self.t.rcmp("lt", n, z);
                            let neg = self.decide(lt)?;
                            Ok(V::F(if neg { -*c } else { *c }))
                        }
                    };
                }
            }
        }
        let (x, y) = (self.rn(&a)?, self.rn(&b)?);
        let conc = match (self.t.cval[x as usize], self.t.cval[y as usize]) {
            (Some(x), Some(y)) => Some(match op {
                BinOp::FAdd => x + y,
                BinOp::FSub => x - y,
                BinOp::FMul => x * y,
                BinOp::FDiv => x / y,
                _ => x % y,
            }),
            _ => None,
        };
        if let Some(c) = conc {
            if !c.is_finite() {
                return Ok(V::F(c));
            }
        }
        let name = match op {
            BinOp::FAdd => "add",
            BinOp::FSub => "sub",
            BinOp::FMul => "mul",
            BinOp::FDiv => "div",
            _ => {
                return match conc {
                    Some(c) => Ok(V::F(c)),
                    None => Err(Stop::Unsup("frem".into())),
                }
            }
        };
        if op == BinOp::FDiv && conc.is_none() {
            // IEEE division by a concrete zero
            if self.t.cval[y as usize] == Some(0.0) {
                let z = self.t.rconst(0.0);
                let e = self.t.rcmp("eq", x, z);
                if self.decide(e)? {
                    return Ok(V::F(f64::NAN));
                }
                let l = self.t.rcmp("lt", x, z);
                let n = self.decide(l)?;
                return Ok(V::F(if n { f64::NEG_INFINITY } else { f64::INFINITY }));
            }
            // a symbolic divisor splits into zero and non-zero
            if self.t.cval[y as usize].is_none() {
                self.emit(&format!("Z {y} {x}"));
            }
        }
        let n = self.t.rfun(name, &[x, y], conc);
        Ok(self.rv(n))
    }
    fn rv(&self, n: Nid) -> V {
        if let Node::RConst(b) = self.t.nodes[n as usize] {
            return V::F(f64::from_bits(b));
        }
        V::S(n)
    }
    fn f1(&mut self, name: &'static str, a: &V, f: fn(f64) -> f64) -> R<V> {
        let a = self.unmagic(a.clone());
        match &a {
            V::U => Ok(V::U),
            V::F32(x) => Ok(V::F32(f(*x as f64) as f32)),
            V::F(x) => {
                let r = f(*x);
                if !r.is_finite() || !x.is_finite() {
                    return Ok(V::F(r));
                }
                let exact = match name {
                    "sqrt" => r.mul_add(r, -*x) == 0.0,
                    "sin" | "tan" | "atan" | "asin" => *x == 0.0,
                    "cos" | "exp" => *x == 0.0,
                    "ln" => *x == 1.0,
                    "acos" => *x == 1.0,
                    _ => false,
                };
                if exact {
                    return Ok(V::F(r));
                }
                let n = self.t.rconst(*x);
                let k = self.t.rfun(name, &[n], Some(r));
                Ok(V::S(k))
            }
            _ => {
                let n = self.rn(&a)?;
                let c = self.t.cval[n as usize].map(f);
                if name == "sqrt" || name == "ln" {
                    if c.is_none() {
                        self.emit(&format!("Q {name} {n}"));
                    }
                }
                if let Some(c) = c {
                    if !c.is_finite() {
                        return Ok(V::F(c));
                    }
                }
                let k = self.t.rfun(name, &[n], c);
                Ok(V::S(k))
            }
        }
    }
    fn f2(&mut self, name: &'static str, a: &V, b: &V, f: fn(f64, f64) -> f64) -> R<V> {
        let (a, b) = (self.unmagic(a.clone()), self.unmagic(b.clone()));
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        if let (V::F(x), V::F(y)) = (&a, &b) {
            let r = f(*x, *y);
            if !r.is_finite() || r == 0.0 || !x.is_finite() || !y.is_finite() {
                return Ok(V::F(r));
            }
        }
        let (x, y) = (self.rn(&a)?, self.rn(&b)?);
        let c = match (self.t.cval[x as usize], self.t.cval[y as usize]) {
            (Some(x), Some(y)) => Some(f(x, y)),
            _ => None,
        };
        let k = self.t.rfun(name, &[x, y], c);
        Ok(V::S(k))
    }
    fn fneg(&mut self, a: &V) -> R<V> {
        let a = self.unmagic(a.clone());
        Ok(match &a {
            V::F(x) => V::F(-*x),
            V::F32(x) => V::F32(-*x),
            V::U => V::U,
            V::A(v) => {
                let mut o = vec![];
                for x in v.iter() {
                    o.push(self.fneg(x)?);
                }
                V::A(Rc::new(o))
            }
            _ => {
                let n = self.rn(&a)?;
                let c = self.t.cval[n as usize].map(|x| -x);
                let k = self.t.rfun("neg", &[n], c);
                self.rv(k)
            }
        })
    }
    fn is_neg(&mut self, a: &V) -> R<bool> {
        let a = self.unmagic(a.clone());
        match &a {
            V::F(x) => Ok(x.is_sign_negative()),
            V::F32(x) => Ok(x.is_sign_negative()),
            _ => {
                let n = self.rn(&a)?;
                let z = self.t.rconst(0.0);
                let c = self.t.rcmp("lt", n, z);
                self.decide(c)
            }
        }
    }
    fn fabs(&mut self, a: &V) -> R<V> {
        if matches!(a, V::U) {
            return Ok(V::U);
        }
        if let V::S(n) = a {
            // |sqrt(..)| and the like need no split
            if let Node::RFun("sqrt" | "exp", _) = self.t.nodes[*n as usize] {
                return Ok(a.clone());
            }
        }
        if self.is_neg(a)? {
            self.fneg(a)
        } else {
            Ok(self.unmagic(a.clone()))
        }
    }
    fn fcmp(&mut self, p: &str, a: &V, b: &V) -> R<V> {
        let (a, b) = (self.unmagic(a.clone()), self.unmagic(b.clone()));
        if p == "true" || p == "false" {
            return Ok(V::I((p == "true") as u128));
        }
        if let (V::F32(x), V::F32(y)) = (&a, &b) {
            return self.fcmp(p, &V::F(*x as f64), &V::F(*y as f64));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        let nan = |v: &V| matches!(v, V::F(x) if x.is_nan());
        if nan(&a) || nan(&b) {
            return Ok(V::I(p.starts_with('u') as u128));
        }
        if p == "ord" {
            return Ok(V::I(1));
        }
        if p == "uno" {
            return Ok(V::I(0));
        }
        let (x, y) = (self.rn(&a)?, self.rn(&b)?);
        let n = match &p[1..] {
            "eq" => self.t.rcmp("eq", x, y),
            "ne" => {
                let e = self.t.rcmp("eq", x, y);
                self.t.not(e)
            }
            "lt" => self.t.rcmp("lt", x, y),
            "le" => self.t.rcmp("le", x, y),
            "gt" => self.t.rcmp("lt", y, x),
            _ => self.t.rcmp("le", y, x),
        };
        Ok(self.bv_bool(n))
    }
    fn icmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sxt(w, x), sxt(w, y));
            let r = match p {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => sx < sy,
                "sle" => sx <= sy,
                "sgt" => sx > sy,
                _ => sx >= sy,
            };
            return Ok(V::I(r as u128));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            return Ok(V::U);
        }
        if let (V::FB(_), _) | (_, V::FB(_)) = (a, b) {
            return self.icmp_fb(p, a, b);
        }
        if w == 1 {
            let (x, y) = (self.bn(a)?, self.bn(b)?);
            let d = self.t.xor(x, y);
            return match p {
                "eq" => {
                    let n = self.t.not(d);
                    Ok(self.bv_bool(n))
                }
                "ne" => Ok(self.bv_bool(d)),
                _ => {
                    let (x, y) = (self.cond(a)?, self.cond(b)?);
                    self.icmp(p, 1, &V::I(x as u128), &V::I(y as u128))
                }
            };
        }
        let (x, y) = (self.bvn(w, a)?, self.bvn(w, b)?);
        let n = match p {
            "eq" => self.t.bvcmp("eq", x, y),
            "ne" => {
                let e = self.t.bvcmp("eq", x, y);
                self.t.not(e)
            }
            "ult" => self.t.bvcmp("ult", x, y),
            "ule" => self.t.bvcmp("ule", x, y),
            "ugt" => self.t.bvcmp("ult", y, x),
            "uge" => self.t.bvcmp("ule", y, x),
            "slt" => self.t.bvcmp("slt", x, y),
            "sle" => self.t.bvcmp("sle", x, y),
            "sgt" => self.t.bvcmp("slt", y, x),
            _ => self.t.bvcmp("sle", y, x),
        };
        Ok(self.bv_bool(n))
    }
    fn icmp_fb(&mut self, p: &str, a: &V, b: &V) -> R<V> {
        if p == "eq" || p == "ne" {
            let r = self.fcmp("oeq", &to_s(a), &to_s(b))?;
            if p == "eq" {
                return Ok(r);
            }
            let n = self.bn(&r)?;
            let n = self.t.not(n);
            return Ok(self.bv_bool(n));
        }
        if let (V::FB(n), V::I(c)) = (a, b) {
            let c = *c as u64;
            let x = V::S(*n);
            if (p == "slt" && c == 0) || (p == "sle" && c == !0) {
                return Ok(V::I(self.is_neg(&x)? as u128));
            }
            if (p == "sgt" && c == !0) || (p == "sge" && c == 0) {
                return Ok(V::I(!self.is_neg(&x)? as u128));
            }
            if c >= 0x7ff0_0000_0000_0000 && c < 1 << 63 {
                let neg = self.is_neg(&x)?;
                let less = if p.starts_with('u') { !neg } else { true };
                return match p {
                    "ult" | "ule" | "slt" | "sle" => Ok(V::I(less as u128)),
                    "ugt" | "uge" | "sgt" | "sge" => Ok(V::I(!less as u128)),
                    _ => Err(Stop::Unsup(format!("icmp {p} on float bits"))),
                };
            }
        }
        Err(Stop::Unsup(format!("icmp {p} on float bits")))
    }
    fn ibin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = msk(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        return Ok(V::U);
                    }
                    x << y
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        return Ok(V::U);
                    }
                    x >> y
                }
                BinOp::AShr => {
                    if y >= w as u128 {
                        return Ok(V::U);
                    }
                    (sxt(w, x) >> y) as u128
                }
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                    return Err(Stop::Panic("integer division by zero".into()))
                }
                BinOp::UDiv => x / y,
                BinOp::URem => x % y,
                BinOp::SDiv => sxt(w, x).wrapping_div(sxt(w, y)) as u128,
                BinOp::SRem => sxt(w, x).wrapping_rem(sxt(w, y)) as u128,
                _ => return Err(Stop::Unsup("ibin".into())),
            };
            return Ok(V::I(r & m));
        }
        if matches!(a, V::U) || matches!(b, V::U) {
            // an absorbing operand decides, anything else stays undef
            let m = msk(w);
            for q in [a, b] {
                if let V::I(c) = q {
                    match op {
                        BinOp::And | BinOp::Mul if *c & m == 0 => return Ok(V::I(0)),
                        BinOp::Or if *c & m == m => return Ok(V::I(m)),
                        _ => {}
                    }
                }
            }
            return Ok(V::U);
        }
        if w == 1 {
            let (x, y) = (self.bn(a)?, self.bn(b)?);
            let n = match op {
                BinOp::And | BinOp::Mul => self.t.and(x, y),
                BinOp::Or => self.t.or(x, y),
                BinOp::Xor | BinOp::Add | BinOp::Sub => self.t.xor(x, y),
                _ => return Err(Stop::Unsup(format!("i1 {op:?}"))),
            };
            return Ok(self.bv_bool(n));
        }
        // 64 bits made of two singles
        if w == 64 && (matches!(a, V::A(_)) || matches!(b, V::A(_))) {
            let half = |v: &V| match v {
                V::A(xs) => Some((xs[0].clone(), xs[1].clone())),
                V::I(c) => Some((V::I(c & 0xffff_ffff), V::I((c >> 32) & 0xffff_ffff))),
                _ => None,
            };
            if let (Some((al, ah)), Some((bl, bh))) = (half(a), half(b)) {
                match (op, b) {
                    (BinOp::Shl, V::I(32)) => return Ok(V::A(Rc::new(vec![V::I(0), al]))),
                    (BinOp::LShr, V::I(32)) => return Ok(V::A(Rc::new(vec![ah, V::I(0)]))),
                    (BinOp::Or, _) => {
                        let pick = |x: V, y: V| match (&x, &y) {
                            (_, V::I(0)) => Some(x),
                            (V::I(0), _) => Some(y),
                            (V::I(c), V::I(d)) => Some(V::I(c | d)),
                            _ => None,
                        };
                        if let (Some(l), Some(h)) = (pick(al, bl), pick(ah, bh)) {
                            return Ok(V::A(Rc::new(vec![l, h])));
                        }
                    }
                    (BinOp::And, V::I(0xffff_ffff)) => return Ok(V::A(Rc::new(vec![al, V::I(0)]))),
                    _ => {}
                }
            }
            return Err(Stop::Unsup(format!("{op:?} on the bits of two singles")));
        }
        // operations on the bits of a float
        for (p, q) in [(a, b), (b, a)] {
            if let (V::FB(n), V::I(c)) = (p, q) {
                let s = V::S(*n);
                let c = *c as u64;
                let r = match op {
                    BinOp::And if c == !(1u64 << 63) => self.fabs(&s)?,
                    BinOp::Xor if c == 1 << 63 => self.fneg(&s)?,
                    BinOp::Or if c == 1 << 63 => {
                        let x = self.fabs(&s)?;
                        self.fneg(&x)?
                    }
                    BinOp::And if c == 1 << 63 => {
                        let ng = self.is_neg(&s)?;
                        return Ok(V::I(if ng { 1 << 63 } else { 0 }));
                    }
                    BinOp::LShr if c == 63 => return Ok(V::I(self.is_neg(&s)? as u128)),
                    _ => return Err(Stop::Unsup(format!("{op:?} {c:#x} on float bits"))),
                };
                return Ok(to_fb(&r));
            }
        }
        let (x, y) = (self.bvn(w, a)?, self.bvn(w, b)?);
        let f = match op {
            BinOp::Add => "add",
            BinOp::Sub => "sub",
            BinOp::Mul => "mul",
            BinOp::And => "and",
            BinOp::Or => "or",
            BinOp::Xor => "xor",
            BinOp::Shl => "shl",
            BinOp::LShr => "lshr",
            BinOp::AShr => "ashr",
            BinOp::UDiv => "udiv",
            BinOp::URem => "urem",
            BinOp::SDiv => "sdiv",
            BinOp::SRem => "srem",
            _ => return Err(Stop::Unsup("ibin".into())),
        };
        let n = self.t.bvfun(f, x, y);
        Ok(self.bvv(n))
    }
    fn bin(&mut self, op: BinOp, ty: &Ty, a: &V, b: &V) -> R<V> {
        match ty {
            Ty::Vec(k, e) => {
                let (xs, ys) = (vecof(a, *k), vecof(b, *k));
                let mut o = Vec::with_capacity(*k as usize);
                for i in 0..*k as usize {
                    o.push(self.bin(op, e, &xs[i], &ys[i])?);
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::F64 | Ty::F32 => self.fbin(op, a, b),
            Ty::Int(w) => self.ibin(op, *w, a, b),
            _ => self.ibin(op, 64, a, b),
        }
    }
    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, a: &V) -> R<V> {
        if c == Cast::BitCast {
            return self.bitcast(from, to, a);
        }
        if let (Ty::Vec(k, e), Ty::Vec(_, e2)) = (from, to) {
            let xs = vecof(a, *k);
            let mut o = vec![];
            for x in xs.iter() {
                o.push(self.cast(c, e, e2, x)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let fw = match from {
            Ty::Int(w) => *w,
            _ => 64,
        };
        let tw = match to {
            Ty::Int(w) => *w,
            _ => 64,
        };
        if matches!(a, V::U) {
            return Ok(match c {
                Cast::ZExt | Cast::SExt | Cast::UIToFP | Cast::SIToFP => to.zero(),
                _ => V::U,
            });
        }
        Ok(match (c, a) {
            (Cast::Trunc, V::I(x)) => V::I(x & msk(tw)),
            (Cast::ZExt, V::I(x)) => V::I(*x),
            (Cast::SExt, V::I(x)) => V::I(sxt(fw, *x) as u128 & msk(tw)),
            (Cast::PtrToInt, V::I(x)) => V::I(x & msk(tw)),
            (Cast::IntToPtr, V::I(x)) => V::I(x & msk(64)),
            (Cast::PtrToInt | Cast::IntToPtr, v) => v.clone(),
            (Cast::Trunc, V::A(xs)) if tw == 64 => xs[0].clone(),
            (Cast::Trunc, V::A(xs)) if fw == 64 && tw == 32 => xs[0].clone(),
            (Cast::ZExt, V::FB(n)) if fw == 32 && tw == 64 => V::A(Rc::new(vec![V::FB(*n), V::I(0)])),
            (Cast::ZExt | Cast::SExt, V::S(n)) if self.t.sort(*n) == Sort::Bool => {
                let b = self.decide(*n)?;
                V::I(if b {
                    if c == Cast::SExt {
                        msk(tw)
                    } else {
                        1
                    }
                } else {
                    0
                })
            }
            (Cast::Trunc, V::FB(n)) => {
                let _ = n;
                return Err(Stop::Unsup("trunc of float bits".into()));
            }
            (Cast::Trunc, V::S(n)) => {
                let e = self.t.extract(tw - 1, 0, *n);
                if tw == 1 {
                    let one = self.t.bvconst(1, 1);
                    let b = self.t.bvcmp("eq", e, one);
                    self.bv_bool(b)
                } else {
                    self.bvv(e)
                }
            }
            (Cast::ZExt, V::S(n)) => {
                let e = self.t.zext(tw, *n);
                V::S(e)
            }
            (Cast::SExt, V::S(n)) => {
                let e = self.t.sext(tw, *n);
                V::S(e)
            }
            (Cast::UIToFP, V::I(x)) => flt(to, *x as f64, *x as f32),
            (Cast::SIToFP, V::I(x)) => flt(to, sxt(fw, *x) as f64, sxt(fw, *x) as f32),
            (Cast::UIToFP | Cast::SIToFP, V::S(n)) => match self.t.sort(*n) {
                Sort::Bool => {
                    let b = self.decide(*n)?;
                    let s = if c == Cast::SIToFP { -1.0 } else { 1.0 };
                    V::F(if b { s } else { 0.0 })
                }
                _ => {
                    let k = self.t.rfrombv(c == Cast::SIToFP, *n);
                    V::S(k)
                }
            },
            (Cast::FPExt, V::F32(x)) => V::F(*x as f64),
            (Cast::FPTrunc, V::F(x)) => V::F32(*x as f32),
            // a single is read as the exact real as well
            (Cast::FPExt | Cast::FPTrunc, V::S(n)) => V::S(*n),
            (Cast::FPToUI | Cast::FPToSI, v) => {
                let x = match v {
                    V::F(x) => *x,
                    V::F32(x) => *x as f64,
                    V::S(n) => self.t.cval[*n as usize].ok_or_else(|| Stop::Unsup("fptoi of symbolic".into()))?,
                    _ => return Err(Stop::Unsup("fptoi".into())),
                };
                if c == Cast::FPToUI {
                    V::I(x as u128 & msk(tw))
                } else {
                    V::I(x as i128 as u128 & msk(tw))
                }
            }
            (c, v) => return Err(Stop::Unsup(format!("cast {c:?} {v:?}"))),
        })
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &V) -> R<V> {
        match (from, to) {
            (Ty::F64, Ty::Int(64)) => Ok(match a {
                V::F(x) => V::I(x.to_bits() as u128),
                V::S(n) => match self.t.cval[*n as usize] {
                    Some(c) => V::I(c.to_bits() as u128),
                    None => V::FB(*n),
                },
                v => v.clone(),
            }),
            (Ty::Int(64), Ty::F64) => Ok(match a {
                V::I(x) => V::F(f64::from_bits(*x as u64)),
                V::FB(n) => V::S(*n),
                V::S(_) => return Err(Stop::Unsup("float from symbolic bits".into())),
                v => v.clone(),
            }),
            (Ty::F32, Ty::Int(32)) => Ok(match a {
                V::F32(x) => V::I(x.to_bits() as u128),
                V::S(n) => V::FB(*n),
                v => v.clone(),
            }),
            (Ty::Int(32), Ty::F32) => Ok(match a {
                V::I(x) => V::F32(f32::from_bits(*x as u32)),
                V::FB(n) => V::S(*n),
                v => v.clone(),
            }),
            (Ty::Vec(k, e), Ty::Int(w)) if **e == Ty::Int(1) && w == k => {
                let xs = vecof(a, *k);
                let mut r = 0u128;
                for (i, x) in xs.iter().enumerate() {
                    match x {
                        V::U => {}
                        _ => {
                            if self.cond(x)? {
                                r |= 1 << i;
                            }
                        }
                    }
                }
                Ok(V::I(r))
            }
            (Ty::Int(w), Ty::Vec(k, e)) if **e == Ty::Int(1) && w == k => {
                let x = a.int();
                Ok(V::A(Rc::new((0..*k).map(|i| V::I((x >> i) & 1)).collect())))
            }
            (f, t) if f == t => Ok(a.clone()),
            _ => {
                // through memory
                let sp = self.mem.sp;
                let p = self.mem.alloca(from.size().max(to.size()), 16);
                self.mem.store(&mut self.m, &mut self.t, from, p, a)?;
                let r = self.mem.load(&mut self.m, &mut self.t, to, p)?;
                self.mem.pop_stack(sp);
                Ok(r)
            }
        }
    }
    fn addr(&mut self, v: &V) -> R<u64> {
        match v {
            V::I(x) => Ok(*x as u64),
            V::S(n) => Err(Stop::Unsup(format!("symbolic address {n}"))),
            _ => Err(Stop::MemErr(format!("address {v:?}"))),
        }
    }
    fn select(&mut self, ty: &Ty, c: &V, a: V, b: V) -> R<V> {
        if let V::A(cs) = c {
            let cs = cs.clone();
            let (k, e) = match ty {
                Ty::Vec(k, e) => (*k, e.clone()),
                _ => return Err(Stop::Unsup("select".into())),
            };
            let (xs, ys) = (vecof(&a, k), vecof(&b, k));
            let mut o = vec![];
            for i in 0..k as usize {
                o.push(self.select(&e, &cs[i], xs[i].clone(), ys[i].clone())?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        match c {
            V::I(x) => Ok(if x & 1 == 1 { a } else { b }),
            V::U => Ok(a),
            V::S(n) => {
                if let Ty::Int(1) = ty {
                    let (x, y) = (self.bn(&a)?, self.bn(&b)?);
                    let p = self.t.and(*n, x);
                    let nn = self.t.not(*n);
                    let q = self.t.and(nn, y);
                    let r = self.t.or(p, q);
                    return Ok(self.bv_bool(r));
                }
                if let Ty::Int(w) = ty {
                    let isbv = |t: &Terms, v: &V| matches!(v, V::S(k) if matches!(t.sort(*k), Sort::Bv(_)));
                    if isbv(&self.t, &a) || isbv(&self.t, &b) {
                        let (x, y) = (self.bvn(*w, &a)?, self.bvn(*w, &b)?);
                        let r = self.t.bvite(*n, x, y);
                        return Ok(self.bvv(r));
                    }
                }
                Ok(if self.decide(*n)? { a } else { b })
            }
            _ => Err(Stop::Unsup("select".into())),
        }
    }

    pub fn call(&mut self, f: u32, args: Vec<V>) -> R<V> {
        if self.stack.len() > 2000 {
            return Err(Stop::Limit);
        }
        let body = self.m.body(f);
        self.visited.entry(f).or_insert_with(|| vec![false; body.blocks.len()]);
        self.stack.push(f);
        let sp = self.mem.sp;
        let mut regs = vec![V::U; body.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < body.nargs as usize {
                regs[i] = a;
            }
        }
        let mut cur = 0usize;
        let mut phibuf: Vec<(u32, V)> = vec![];
        'outer: loop {
            self.visited.get_mut(&f).unwrap()[cur] = true;
            let blk = &body.blocks[cur];
            let mut next = None;
            self.steps += blk.code.len() as u64;
            if self.steps > self.limit {
                return Err(Stop::Limit);
            }
            for ins in &blk.code {
                macro_rules! g {
                    ($o:expr) => {
                        match $o {
                            Op::Reg(r) => regs[*r as usize].clone(),
                            Op::C(v) => v.clone(),
                        }
                    };
                }
                let val = match &ins.ins {
                    Ins::Bin(op, ty, a, b) => {
                        let (a, b) = (g!(a), g!(b));
                        self.bin(*op, ty, &a, &b)?
                    }
                    Ins::FNeg(_, a) => {
                        let a = g!(a);
                        self.fneg(&a)?
                    }
                    Ins::ICmp(p, ty, a, b) => {
                        let (a, b) = (g!(a), g!(b));
                        match ty {
                            Ty::Vec(k, e) => {
                                let w = if let Ty::Int(w) = **e { w } else { 64 };
                                let (xs, ys) = (vecof(&a, *k), vecof(&b, *k));
                                let mut o = vec![];
                                for i in 0..*k as usize {
                                    o.push(self.icmp(p, w, &xs[i], &ys[i])?);
                                }
                                V::A(Rc::new(o))
                            }
                            Ty::Int(w) => self.icmp(p, *w, &a, &b)?,
                            _ => self.icmp(p, 64, &a, &b)?,
                        }
                    }
                    Ins::FCmp(p, ty, a, b) => {
                        let (a, b) = (g!(a), g!(b));
                        match ty {
                            Ty::Vec(k, _) => {
                                let (xs, ys) = (vecof(&a, *k), vecof(&b, *k));
                                let mut o = vec![];
                                for i in 0..*k as usize {
                                    o.push(self.fcmp(p, &xs[i], &ys[i])?);
                                }
                                V::A(Rc::new(o))
                            }
                            _ => self.fcmp(p, &a, &b)?,
                        }
                    }
                    Ins::Cast(c, from, to, a) => {
                        let a = g!(a);
                        self.cast(*c, from, to, &a)?
                    }
                    Ins::Load(ty, p) => {
                        let p = g!(p);
                        let p = self.addr(&p)?;
                        self.mem.load(&mut self.m, &mut self.t, ty, p)?
                    }
                    Ins::Store(ty, v, p) => {
                        let (mut v, p) = (g!(v), g!(p));
                        let p = self.addr(&p)?;
                        if let V::S(n) = v {
                            if self.t.sort(n) == Sort::Bool {
                                v = V::I(self.decide(n)? as u128);
                            }
                        }
                        self.mem.store(&mut self.m, &mut self.t, ty, p, &v)?;
                        continue;
                    }
                    Ins::Gep(base, off, dynv) => {
                        let b = g!(base);
                        if let V::U = b {
                            V::U
                        } else {
                            let mut p = (self.addr(&b)? as i64).wrapping_add(*off);
                            for (o, stride, w) in dynv {
                                let i = g!(o);
                                match i {
                                    V::I(x) => p = p.wrapping_add((sxt(*w, x) as i64).wrapping_mul(*stride as i64)),
                                    _ => return Err(Stop::Unsup(format!("symbolic index {i:?}"))),
                                }
                            }
                            V::I(p as u64 as u128)
                        }
                    }
                    Ins::Alloca(sz, al, cnt) => {
                        let n = match cnt {
                            Some((o, s)) => g!(o).int() as u64 * s,
                            None => *sz,
                        };
                        V::I(self.mem.alloca(n, *al) as u128)
                    }
                    Ins::Br(b) => {
                        next = Some(*b);
                        break;
                    }
                    Ins::CondBr(c, a, b) => {
                        let c = g!(c);
                        next = Some(if self.cond(&c)? { *a } else { *b });
                        break;
                    }
                    Ins::Switch(w, v, d, cs) => {
                        let v = g!(v);
                        let mut tgt = *d;
                        match v {
                            V::I(x) => {
                                for (c, b) in cs {
                                    if *c == x {
                                        tgt = *b;
                                        break;
                                    }
                                }
                            }
                            V::S(n) if self.t.sort(n) == Sort::Bool => {
                                let x = self.decide(n)? as u128;
                                for (c, b) in cs {
                                    if *c == x {
                                        tgt = *b;
                                        break;
                                    }
                                }
                            }
                            V::S(n) => {
                                for (c, b) in cs {
                                    let k = self.t.bvconst(*w, *c);
                                    let e = self.t.bvcmp("eq", n, k);
                                    if self.decide(e)? {
                                        tgt = *b;
                                        break;
                                    }
                                }
                            }
                            _ => return Err(Stop::Unsup("switch on undef".into())),
                        }
                        next = Some(tgt);
                        break;
                    }
                    Ins::Ret(v) => {
                        let r = match v {
                            Some(o) => g!(o),
                            None => V::U,
                        };
                        self.stack.pop();
                        self.mem.pop_stack(sp);
                        return Ok(r);
                    }
                    Ins::Call(c) => {
                        let (callee, rt, args, norm) = &**c;
                        let mut vals = Vec::with_capacity(args.len());
                        for (_, o) in args {
                            vals.push(g!(o));
                        }
                        let r = match callee {
                            Callee::Func(i) => self.call(*i, vals)?,
                            Callee::Ext(n) => self.ext(n, rt, args, vals)?,
                            Callee::Panic(n) => return Err(Stop::Panic(self.panic_info(n, &vals))),
                            Callee::Asm(txt) => {
                                if txt.is_empty() {
                                    V::U
                                } else if txt.contains("cpuid") {
                                    rt.zero()
                                } else {
                                    return Err(Stop::Unsup(format!("asm {txt}")));
                                }
                            }
                            Callee::Ind(o) => {
                                let p = g!(o);
                                let a = self.addr(&p)?;
                                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.m.funcs.len() as u64 {
                                    return Err(Stop::MemErr(format!("indirect call to {a:#x}")));
                                }
                                let i = ((a - FBASE) / 16) as u32;
                                let fu = &self.m.funcs[i as usize];
                                if fu.is_panic {
                                    let n = fu.name;
                                    return Err(Stop::Panic(self.panic_info(n, &vals)));
                                }
                                if fu.body_text.is_none() {
                                    let n = fu.name;
                                    self.ext(n, rt, args, vals)?
                                } else {
                                    self.call(i, vals)?
                                }
                            }
                        };
                        if let Some(b) = norm {
                            if ins.dst != NONE {
                                regs[ins.dst as usize] = r;
                            }
                            next = Some(*b);
                            break;
                        }
                        r
                    }
                    Ins::Select(ty, c, a, b) => {
                        let (c, a, b) = (g!(c), g!(a), g!(b));
                        self.select(ty, &c, a, b)?
                    }
                    Ins::ExtractValue(a, idx) => {
                        let mut v = g!(a);
                        for i in idx {
                            v = match &v {
                                V::A(xs) => xs[*i as usize].clone(),
                                _ => V::U,
                            };
                        }
                        v
                    }
                    Ins::InsertValue(a, b, idx) => {
                        let (mut a, b) = (g!(a), g!(b));
                        set_path(&mut a, idx, b)?;
                        a
                    }
                    Ins::ExtractElem(a, i) => {
                        let (a, i) = (g!(a), g!(i));
                        match (&a, &i) {
                            (V::A(xs), V::I(k)) => xs.get(*k as usize).cloned().unwrap_or(V::U),
                            _ => V::U,
                        }
                    }
                    Ins::InsertElem(a, b, i) => {
                        let (mut a, b, i) = (g!(a), g!(b), g!(i));
                        let k = i.int() as usize;
                        match &mut a {
                            V::A(xs) => {
                                Rc::make_mut(xs)[k] = b;
                            }
                            _ => return Err(Stop::Unsup("insertelement".into())),
                        }
                        a
                    }
                    Ins::Shuffle(a, b, mask) => {
                        let (a, b) = (g!(a), g!(b));
                        let n = match (&a, &b) {
                            (V::A(x), _) => x.len(),
                            (_, V::A(x)) => x.len(),
                            _ => 0,
                        };
                        let mut o = vec![];
                        for k in mask {
                            o.push(match k {
                                None => V::U,
                                Some(k) if (*k as usize) < n => match &a {
                                    V::A(x) => x[*k as usize].clone(),
                                    _ => V::U,
                                },
                                Some(k) => match &b {
                                    V::A(x) => x[*k as usize - n].clone(),
                                    _ => V::U,
                                },
                            });
                        }
                        V::A(Rc::new(o))
                    }
                    Ins::AtomicRmw(op, ty, p, v) => {
                        let (p, v) = (g!(p), g!(v));
                        let p = self.addr(&p)?;
                        let old = self.mem.load(&mut self.m, &mut self.t, ty, p)?;
                        let w = if let Ty::Int(w) = ty { *w } else { 64 };
                        let nv = match *op {
                            "xchg" => v,
                            "add" => self.ibin(BinOp::Add, w, &old, &v)?,
                            "sub" => self.ibin(BinOp::Sub, w, &old, &v)?,
                            "and" => self.ibin(BinOp::And, w, &old, &v)?,
                            "or" => self.ibin(BinOp::Or, w, &old, &v)?,
                            "xor" => self.ibin(BinOp::Xor, w, &old, &v)?,
                            _ => return Err(Stop::Unsup(format!("atomicrmw {op}"))),
                        };
                        self.mem.store(&mut self.m, &mut self.t, ty, p, &nv)?;
                        old
                    }
                    Ins::CmpXchg(ty, p, a, b) => {
                        let (p, a, b) = (g!(p), g!(a), g!(b));
                        let p = self.addr(&p)?;
                        let old = self.mem.load(&mut self.m, &mut self.t, ty, p)?;
                        let w = if let Ty::Int(w) = ty { *w } else { 64 };
                        let eq = self.icmp("eq", w, &old, &a)?;
                        let eq = self.cond(&eq)?;
                        if eq {
                            self.mem.store(&mut self.m, &mut self.t, ty, p, &b)?;
                        }
                        V::A(Rc::new(vec![old, V::I(eq as u128)]))
                    }
                    Ins::Unreachable => return Err(Stop::Abort("unreachable".into())),
                    Ins::Copy(a) => g!(a),
                    Ins::Nop => continue,
                    Ins::Unsupported(s) => return Err(Stop::Unsup(s.clone())),
                };
                if ins.dst != NONE {
                    regs[ins.dst as usize] = val;
                }
            }
            let nb = match next {
                Some(b) => b as usize,
                None => return Err(Stop::Abort("fell off block".into())),
            };
            let from = cur as u32;
            let blk = &body.blocks[nb];
            if !blk.phis.is_empty() {
                phibuf.clear();
                for p in &blk.phis {
                    let o = p.inc.iter().find(|x| x.0 == from);
                    match o {
                        Some((_, Op::Reg(r))) => phibuf.push((p.dst, regs[*r as usize].clone())),
                        Some((_, Op::C(v))) => phibuf.push((p.dst, v.clone())),
                        None => return Err(Stop::Abort("phi".into())),
                    }
                }
                for (d, v) in phibuf.drain(..) {
                    regs[d as usize] = v;
                }
            }
            cur = nb;
            continue 'outer;
        }
    }

    fn panic_info(&mut self, n: &str, vals: &[V]) -> String {
        // try to show a message: (ptr,len) string or the first piece of a fmt::Arguments
        let mut msg = String::new();
        if let (Some(V::I(p)), Some(V::I(l))) = (vals.first(), vals.get(1)) {
            if *l > 0 && *l < 400 && *p > 0 && *p < (1 << 47) {
                if let Ok(b) = self.mem.read_bytes(&mut self.m, *p as u64, *l as u64) {
                    if let Ok(s) = String::from_utf8(b) {
                        if s.chars().all(|c| !c.is_control()) {
                            msg = s;
                        }
                    }
                }
            }
        }
        let st: Vec<&str> = self.stack.iter().rev().take(6).map(|f| self.m.funcs[*f as usize].name).collect();
        format!("{n} [{msg}] in {}", st.join(" < ")).replace('\n', " ")
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn cstr(&mut self, p: u64) -> R<String> {
        let mut s = vec![];
        let mut p = p;
        loop {
            let b = self.mem.read_bytes(&mut self.m, p, 1)?[0];
            if b == 0 {
                break;
            }
            s.push(b);
            p += 1;
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn label(&mut self, p: &V, l: &V, i: &V) -> R<String> {
        let b = self.mem.read_bytes(&mut self.m, p.int() as u64, l.int() as u64)?;
        let s = String::from_utf8_lossy(&b).replace(" ", "-");
        let i = sxt(32, i.int()) as i64;
        Ok(if i < 0 { s.to_string() } else { format!("{s}_{i}") })
    }

    fn ext(&mut self, name: &'static str, rt: &Ty, atys: &[(Ty, Op)], a: Vec<V>) -> R<V> {
        if name.starts_with("llvm.") {
            return self.intrinsic(name, rt, atys, a);
        }
        if name.starts_with("vf_") {
            return self.vf(name, a);
        }
        macro_rules! i {
            ($k:expr) => {
                match &a[$k] {
                    V::I(x) => *x as u64,
                    v => return Err(Stop::Unsup(format!("symbolic argument {v:?} to {name}"))),
                }
            };
        }
        Ok(match name {
            "malloc" => {
                let n = i!(0);
                if n > 1 << 32 {
                    return Ok(V::I(0));
                }
                V::I(self.mem.malloc(n, 16) as u128)
            }
            "calloc" => {
                let n = i!(0) * i!(1);
                V::I(self.mem.malloc(n, 16) as u128)
            }
            "posix_memalign" => {
                let p = self.mem.malloc(i!(2), i!(1));
                let dst = i!(0);
                self.mem.store(&mut self.m, &mut self.t, &Ty::Int(64), dst, &V::I(p as u128))?;
                V::I(0)
            }
            "aligned_alloc" => V::I(self.mem.malloc(i!(1), i!(0)) as u128),
            "realloc" => {
                let old = i!(0);
                let n = i!(1);
                let p = self.mem.malloc(n, 16);
                if old != 0 {
                    let os = self.mem.alloc_size(old).ok_or_else(|| Stop::MemErr("realloc".into()))?;
                    self.mem.copy(&mut self.m, &mut self.t, p, old, os.min(n))?;
                    self.mem.free(old)?;
                }
                V::I(p as u128)
            }
            "free" => {
                self.mem.free(i!(0))?;
                V::U
            }
            "memcpy" | "memmove" => {
                self.mem.copy(&mut self.m, &mut self.t, i!(0), i!(1), i!(2))?;
                a[0].clone()
            }
            "memset" => {
                self.mem.set(&mut self.m, &mut self.t, i!(0), i!(1) as u8, i!(2))?;
                a[0].clone()
            }
            "memcmp" | "bcmp" => {
                let n = i!(2);
                let (p, q) = (i!(0), i!(1));
                let x = self.mem.read_bytes(&mut self.m, p, n);
                let y = self.mem.read_bytes(&mut self.m, q, n);
                match (x, y) {
                    (Ok(x), Ok(y)) => V::I(match x.cmp(&y) {
                        std::cmp::Ordering::Less => msk(32),
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    }),
                    _ => {
                        // symbolic: compare byte by byte
                        let mut r = V::I(0);
                        for k in 0..n {
                            let x = self.mem.load(&mut self.m, &mut self.t, &Ty::Int(8), p + k)?;
                            let y = self.mem.load(&mut self.m, &mut self.t, &Ty::Int(8), q + k)?;
                            let e = self.icmp("eq", 8, &x, &y)?;
                            if !self.cond(&e)? {
                                let l = self.icmp("ult", 8, &x, &y)?;
                                r = V::I(if self.cond(&l)? { msk(32) } else { 1 });
                                break;
                            }
                        }
                        r
                    }
                }
            }
            "strlen" => {
                let s = self.cstr(i!(0))?;
                V::I(s.len() as u128)
            }
            "atan2" => self.f2("atan2", &a[0], &a[1], f64::atan2)?,
            "hypot" => {
                let x = self.fbin(BinOp::FMul, &a[0], &a[0])?;
                let y = self.fbin(BinOp::FMul, &a[1], &a[1])?;
                let s = self.fbin(BinOp::FAdd, &x, &y)?;
                self.f1("sqrt", &s, f64::sqrt)?
            }
            "sin" => self.f1("sin", &a[0], f64::sin)?,
            "cos" => self.f1("cos", &a[0], f64::cos)?,
            "sqrt" => self.f1("sqrt", &a[0], f64::sqrt)?,
            "tan" => self.f1("tan", &a[0], f64::tan)?,
            "acos" => self.f1("acos", &a[0], f64::acos)?,
            "asin" => self.f1("asin", &a[0], f64::asin)?,
            "atan" => self.f1("atan", &a[0], f64::atan)?,
            "exp" => self.f1("exp", &a[0], f64::exp)?,
            "log" => self.f1("ln", &a[0], f64::ln)?,
            "pow" => self.pow(&a[0], &a[1])?,
            "log1p" => {
                let x = self.fbin(BinOp::FAdd, &a[0], &V::F(1.0))?;
                self.f1("ln", &x, f64::ln)?
            }
            "expm1" => {
                let x = self.f1("exp", &a[0], f64::exp)?;
                self.fbin(BinOp::FSub, &x, &V::F(1.0))?
            }
            "sinh" => self.f1("sinh", &a[0], f64::sinh)?,
            "cosh" => self.f1("cosh", &a[0], f64::cosh)?,
            "tanh" => self.f1("tanh", &a[0], f64::tanh)?,
            "cbrt" => self.f1("cbrt", &a[0], f64::cbrt)?,
            "fmod" => self.fbin(BinOp::FRem, &a[0], &a[1])?,
            "__errno_location" => {
                if self.errno == 0 {
                    self.errno = self.mem.malloc(8, 16);
                }
                V::I(self.errno as u128)
            }
            "getenv" | "secure_getenv" => V::I(0),
            "getpid" | "gettid" => V::I(4242),
            "syscall" => {
                let n = i!(0);
                match n {
                    318 => {
                        // getrandom
                        let (p, l) = (i!(1), i!(2));
                        for k in 0..l {
                            let b = self.rand() as u8;
                            self.mem.write_bytes(&mut self.m, &mut self.t, p + k, &[b])?;
                        }
                        V::I(l as u128)
                    }
                    202 => V::I(0),
                    186 => V::I(4242),
                    _ => return Err(Stop::Unsup(format!("syscall {n}"))),
                }
            }
            "getrandom" => {
                let (p, l) = (i!(0), i!(1));
                for k in 0..l {
                    let b = self.rand() as u8;
                    self.mem.write_bytes(&mut self.m, &mut self.t, p + k, &[b])?;
                }
                V::I(l as u128)
            }
            "clock_gettime" => {
                let p = i!(1);
                self.mem.write_bytes(&mut self.m, &mut self.t, p, &[0u8; 16])?;
                V::I(0)
            }
            "sysconf" => V::I(4096),
            "sched_getaffinity" => V::I(msk(32)),
            "pthread_self" => V::I(1),
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_delete" => V::I(0),
            "pthread_key_create" => {
                let p = i!(0);
                let k = self.specific.len() as u128 + 1;
                self.specific.insert(k as u64, 0);
                self.mem.store(&mut self.m, &mut self.t, &Ty::Int(32), p, &V::I(k))?;
                V::I(0)
            }
            "pthread_setspecific" => {
                let (k, v) = (i!(0), i!(1));
                self.specific.insert(k, v);
                V::I(0)
            }
            "pthread_getspecific" => {
                let k = i!(0);
                V::I(self.specific.get(&k).copied().unwrap_or(0) as u128)
            }
            "__cxa_thread_atexit_impl" => V::I(0),
            "write" | "writev" => {
                // output is discarded
                if name == "write" {
                    V::I(i!(2) as u128)
                } else {
                    return Err(Stop::Unsup("writev".into()));
                }
            }
            "open64" | "open" => {
                let p = self.cstr(i!(0))?;
                if self.files.contains_key(&p) {
                    let fd = self.nextfd;
                    self.nextfd += 1;
                    self.fds.insert(fd, (p, 0));
                    V::I(fd as u128)
                } else {
                    let e = match self.ext("__errno_location", rt, &[], vec![])? {
                        V::I(x) => x as u64,
                        _ => 0,
                    };
                    self.mem.store(&mut self.m, &mut self.t, &Ty::Int(32), e, &V::I(2))?;
                    V::I(msk(32))
                }
            }
            "close" => {
                let fd = i!(0) as i32;
                self.fds.remove(&fd);
                V::I(0)
            }
            "read" => {
                let fd = i!(0) as i32;
                let (p, n) = (i!(1), i!(2));
                let (path, pos) = self.fds.get(&fd).cloned().ok_or_else(|| Stop::Unsup("read fd".into()))?;
                let data = &self.files[&path];
                let k = (data.len() - pos).min(n as usize);
                let chunk = data[pos..pos + k].to_vec();
                self.fds.insert(fd, (path, pos + k));
                self.mem.write_bytes(&mut self.m, &mut self.t, p, &chunk)?;
                V::I(k as u128)
            }
            "lseek64" => {
                let fd = i!(0) as i32;
                let (path, pos) = self.fds.get(&fd).cloned().ok_or_else(|| Stop::Unsup("lseek fd".into()))?;
                let np = match i!(2) {
                    0 => i!(1) as i64,
                    1 => pos as i64 + i!(1) as i64,
                    _ => self.files[&path].len() as i64 + i!(1) as i64,
                };
                self.fds.insert(fd, (path, np as usize));
                V::I(np as u128)
            }
            "fstat64" | "statx" | "stat64" => V::I(msk(32)),
            "abort" | "_exit" | "exit" => return Err(Stop::Abort(name.into())),
            _ => return Err(Stop::Unsup(format!("external function {name}"))),
        })
    }

    fn pow(&mut self, x: &V, y: &V) -> R<V> {
        let e = match y {
            V::F(e) => Some(*e),
            V::S(n) => self.t.cval[*n as usize],
            _ => None,
        };
        match e {
            Some(e) if e.fract() == 0.0 && e.abs() <= 64.0 => self.powi(x, e as i32),
            Some(0.5) => self.f1("sqrt", x, f64::sqrt),
            _ => self.f2("pow", x, y, f64::powf),
        }
    }
    fn powi(&mut self, x: &V, e: i32) -> R<V> {
        let mut r = V::F(1.0);
        for _ in 0..e.unsigned_abs() {
            r = self.fbin(BinOp::FMul, &r, x)?;
        }
        if e < 0 {
            r = self.fbin(BinOp::FDiv, &V::F(1.0), &r)?;
        }
        Ok(r)
    }

    fn vf(&mut self, name: &str, a: Vec<V>) -> R<V> {
        match name {
            "vf_f64" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                Ok(V::S(self.t.rvar(l)))
            }
            "vf_bv" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let w = a[3].int() as u32;
                let n = self.t.bvvar(l, w);
                Ok(V::S(if w < 64 { self.t.zext(64, n) } else { n }))
            }
            "vf_choice" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let r = self.ask(&format!("C {} {l}", a[3].int()));
                Ok(V::I(r.parse::<u128>().map_err(|_| Stop::AssumeFail)?))
            }
            "vf_assume" => {
                let n = match &a[0] {
                    V::I(x) => {
                        if x & 1 == 1 {
                            return Ok(V::U);
                        }
                        return Err(Stop::AssumeFail);
                    }
                    v => self.bn(v)?,
                };
                if self.ask(&format!("A {n}")) != "1" {
                    return Err(Stop::AssumeFail);
                }
                Ok(V::U)
            }
            "vf_eq" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let (x, y) = self.two(&a[3], &a[4])?;
                self.emit(&format!("E {x} {y} {l}"));
                Ok(V::U)
            }
            "vf_close" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let (x, y) = self.two(&a[3], &a[4])?;
                let tol = self.unmagic(a[5].clone());
                let tol = self.rn(&tol)?;
                self.emit(&format!("L {x} {y} {tol} {l}"));
                Ok(V::U)
            }
            "vf_ieq" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let (x, y) = (self.bvn(64, &a[3])?, self.bvn(64, &a[4])?);
                let n = self.t.bvcmp("eq", x, y);
                self.emit(&format!("T {n} {l}"));
                Ok(V::U)
            }
            "vf_true" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let n = self.bn(&a[3])?;
                self.emit(&format!("T {n} {l}"));
                Ok(V::U)
            }
            "vf_deriv" => {
                // d f / d var at var=0  ==  jac
                let l = self.label(&a[0], &a[1], &a[2])?;
                let v = self.label(&a[3], &a[4], &a[5])?;
                let (x, y) = self.two(&a[6], &a[7])?;
                let (t, _) = self.two(&a[8], &a[8])?;
                self.emit(&format!("D {x} {y} {v} {l} {t}"));
                Ok(V::U)
            }
            "vf_out" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let v = self.unmagic(a[3].clone());
                let n = self.rnan(&v)?;
                self.emit(&format!("O {n} {l}"));
                Ok(V::U)
            }
            "vf_unit" => {
                // the variables label_0 .. label_{n-1} have unit norm
                let l = self.label(&a[0], &a[1], &V::I(msk(32)))?;
                self.emit(&format!("U {} {l}", a[2].int()));
                Ok(V::U)
            }
            "vf_range" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let v = self.t.rvar(l);
                let (lo, hi) = (self.rn(&a[3])?, self.rn(&a[4])?);
                self.emit(&format!("R {v} {lo} {hi}"));
                Ok(V::U)
            }
            "vf_cut" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                let v = self.unmagic(a[3].clone());
                let n = self.rnan(&v)?;
                self.emit(&format!("K {n} {l}"));
                Ok(V::U)
            }
            "vf_mark" => {
                let l = self.label(&a[0], &a[1], &a[2])?;
                self.emit(&format!("M {l}"));
                Ok(V::U)
            }
            "vf_seed" => {
                self.rng = (a[0].int() as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                Ok(V::U)
            }
            "vf_num" => {
                // prints a number that stands for the value `a[1]` from now on
                let n = self.rnan(&a[1].clone())?;
                let V::F(x) = a[2] else { return Err(Stop::Unsup("literal".into())) };
                if self.magic.insert(x.to_bits(), n).is_some_and(|o| o != n) {
                    return Err(Stop::Unsup("literal used twice".into()));
                }
                let s = format!("{x}");
                self.mem.write_bytes(&mut self.m, &mut self.t, a[0].int() as u64, s.as_bytes())?;
                Ok(V::I(s.len() as u128))
            }
            "vf_file" => {
                let p = self.label(&a[0], &a[1], &V::I(msk(32)))?;
                let b = self.mem.read_bytes(&mut self.m, a[2].int() as u64, a[3].int() as u64)?;
                self.files.insert(p, b);
                Ok(V::U)
            }
            _ => Err(Stop::Unsup(format!("harness call {name}"))),
        }
    }
    fn rnan(&mut self, v: &V) -> R<Nid> {
        if let V::U = v {
            return Err(Stop::Unsup("undef reaches a check".into()));
        }
        self.rn(v)
    }
    fn two(&mut self, x: &V, y: &V) -> R<(Nid, Nid)> {
        let x = self.unmagic(x.clone());
        let y = self.unmagic(y.clone());
        Ok((self.rnan(&x)?, self.rnan(&y)?))
    }

    fn intrinsic(&mut self, name: &'static str, rt: &Ty, atys: &[(Ty, Op)], a: Vec<V>) -> R<V> {
        let base: &str = {
            let s = &name[5..];
            s
        };
        let p: Vec<&str> = base.split('.').collect();
        // vectors: elementwise for the arithmetic ones
        if let Ty::Vec(k, e) = rt {
            if matches!(
                p[0],
                "sqrt" | "sin" | "cos" | "fabs" | "fma" | "fmuladd" | "umin" | "umax" | "smin" | "smax" | "abs" | "ctpop" | "minnum" | "maxnum"
            ) {
                let mut o = vec![];
                for i in 0..*k as usize {
                    let args: Vec<V> = a.iter().map(|v| if let V::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                    let t2: Vec<(Ty, Op)> = atys
                        .iter()
                        .map(|(t, o)| (if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }, o.clone()))
                        .collect();
                    o.push(self.intrinsic(name, e, &t2, args)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let w = match atys.first() {
            Some((Ty::Int(w), _)) => *w,
            _ => 64,
        };
        macro_rules! i {
            ($k:expr) => {
                match &a[$k] {
                    V::I(x) => *x,
                    V::U => 0,
                    v => return Err(Stop::Unsup(format!("symbolic argument {v:?} to {name}"))),
                }
            };
        }
        Ok(match p[0] {
            "memcpy" | "memmove" => {
                self.mem.copy(&mut self.m, &mut self.t, i!(0) as u64, i!(1) as u64, i!(2) as u64)?;
                V::U
            }
            "memset" => {
                self.mem.set(&mut self.m, &mut self.t, i!(0) as u64, i!(1) as u8, i!(2) as u64)?;
                V::U
            }
            "fabs" => self.fabs(&a[0])?,
            "sqrt" => self.f1("sqrt", &a[0], f64::sqrt)?,
            "sin" => self.f1("sin", &a[0], f64::sin)?,
            "cos" => self.f1("cos", &a[0], f64::cos)?,
            "tan" => self.f1("tan", &a[0], f64::tan)?,
            "exp" => self.f1("exp", &a[0], f64::exp)?,
            "log" => self.f1("ln", &a[0], f64::ln)?,
            "pow" => self.pow(&a[0], &a[1])?,
            "powi" => self.powi(&a[0], sxt(32, i!(1)) as i32)?,
            "floor" => self.f1("floor", &a[0], f64::floor)?,
            "ceil" => self.f1("ceil", &a[0], f64::ceil)?,
            "trunc" => self.f1("trunc", &a[0], f64::trunc)?,
            "round" => self.f1("round", &a[0], f64::round)?,
            "fma" | "fmuladd" => {
                let x = self.fbin(BinOp::FMul, &a[0], &a[1])?;
                self.fbin(BinOp::FAdd, &x, &a[2])?
            }
            "minnum" | "maxnum" | "minimum" | "maximum" => {
                let nan = |v: &V| matches!(v, V::F(x) if x.is_nan());
                if nan(&a[0]) {
                    return Ok(a[1].clone());
                }
                if nan(&a[1]) {
                    return Ok(a[0].clone());
                }
                let c = self.fcmp("olt", &a[0], &a[1])?;
                let lt = self.cond(&c)?;
                if lt == p[0].starts_with("min") {
                    a[0].clone()
                } else {
                    a[1].clone()
                }
            }
            "copysign" => {
                let s = self.is_neg(&a[1])?;
                let x = self.fabs(&a[0])?;
                if s {
                    self.fneg(&x)?
                } else {
                    x
                }
            }
            "is" => {
                // is.fpclass
                let m = i!(1);
                match &a[0] {
                    V::F(x) => {
                        let c = match x.classify() {
                            std::num::FpCategory::Nan => 0x3,
                            std::num::FpCategory::Infinite => if *x < 0.0 { 0x4 } else { 0x200 },
                            std::num::FpCategory::Zero => if x.is_sign_negative() { 0x20 } else { 0x40 },
                            std::num::FpCategory::Subnormal => if *x < 0.0 { 0x10 } else { 0x80 },
                            std::num::FpCategory::Normal => if *x < 0.0 { 0x8 } else { 0x100 },
                        };
                        V::I((m & c != 0) as u128)
                    }
                    _ if m & 0x1f8 == 0 => V::I(0),
                    _ if m & 0x1f8 == 0x1f8 => V::I(1),
                    _ => return Err(Stop::Unsup("is.fpclass".into())),
                }
            }
            "umul" | "uadd" | "usub" | "smul" | "sadd" | "ssub" if p.get(1) == Some(&"with") => {
                let op = match &p[0][1..] {
                    "mul" => BinOp::Mul,
                    "add" => BinOp::Add,
                    _ => BinOp::Sub,
                };
                match (&a[0], &a[1]) {
                    (V::I(x), V::I(y)) => {
                        let (x, y) = (*x, *y);
                        let r = self.ibin(op, w, &a[0], &a[1])?;
                        let ri = r.int();
                        let ov = if p[0].starts_with('u') {
                            match op {
                                BinOp::Mul => x.checked_mul(y).map(|z| z > msk(w)).unwrap_or(true),
                                BinOp::Add => x.checked_add(y).map(|z| z > msk(w)).unwrap_or(true),
                                _ => x < y,
                            }
                        } else {
                            let (x, y) = (sxt(w, x), sxt(w, y));
                            let z = match op {
                                BinOp::Mul => x.checked_mul(y),
                                BinOp::Add => x.checked_add(y),
                                _ => x.checked_sub(y),
                            };
                            z.map(|z| z != sxt(w, ri)).unwrap_or(true)
                        };
                        V::A(Rc::new(vec![r, V::I(ov as u128)]))
                    }
                    _ => {
                        let (x, y) = (self.bvn(w, &a[0])?, self.bvn(w, &a[1])?);
                        let (xe, ye) = if p[0].starts_with('u') {
                            (self.t.zext(2 * w, x), self.t.zext(2 * w, y))
                        } else {
                            (self.t.sext(2 * w, x), self.t.sext(2 * w, y))
                        };
                        let f = match op {
                            BinOp::Mul => "mul",
                            BinOp::Add => "add",
                            _ => "sub",
                        };
                        let full = self.t.bvfun(f, xe, ye);
                        let r = self.t.bvfun(f, x, y);
                        let re = if p[0].starts_with('u') { self.t.zext(2 * w, r) } else { self.t.sext(2 * w, r) };
                        let e = self.t.bvcmp("eq", full, re);
                        let ov = self.t.not(e);
                        V::A(Rc::new(vec![self.bvv(r), self.bv_bool(ov)]))
                    }
                }
            }
            "uadd" | "usub" if p.get(1) == Some(&"sat") => {
                let (x, y) = (i!(0), i!(1));
                if p[0] == "uadd" {
                    V::I(x.saturating_add(y).min(msk(w)))
                } else {
                    V::I(x.saturating_sub(y))
                }
            }
            "umax" | "umin" | "smax" | "smin" => {
                let pr = if p[0].starts_with('u') { "ult" } else { "slt" };
                let c = self.icmp(pr, w, &a[0], &a[1])?;
                let (x, y) = if p[0].ends_with("min") { (a[0].clone(), a[1].clone()) } else { (a[1].clone(), a[0].clone()) };
                self.select(&Ty::Int(w), &c, x, y)?
            }
            "abs" => V::I(sxt(w, i!(0)).unsigned_abs() & msk(w)),
            "ctlz" => {
                let x = i!(0);
                V::I((x.leading_zeros() - (128 - w)) as u128)
            }
            "cttz" => {
                let x = i!(0);
                V::I(if x == 0 { w as u128 } else { x.trailing_zeros() as u128 })
            }
            "ctpop" => V::I(i!(0).count_ones() as u128),
            "bswap" => {
                let x = i!(0);
                V::I(x.swap_bytes() >> (128 - w))
            }
            "bitreverse" => V::I(i!(0).reverse_bits() >> (128 - w)),
            "fshl" | "fshr" => {
                let s = i!(2) % w as u128;
                if let (V::I(x), V::I(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let m = msk(w);
                    V::I(if p[0] == "fshl" {
                        if s == 0 {
                            x
                        } else {
                            ((x << s) | (y >> (w as u128 - s))) & m
                        }
                    } else if s == 0 {
                        y
                    } else {
                        ((x << (w as u128 - s)) | (y >> s)) & m
                    })
                } else {
                    return Err(Stop::Unsup("fsh of symbolic".into()));
                }
            }
            "vector" => {
                // vector.reduce.OP.vNiM
                let xs = match &a[a.len() - 1] {
                    V::A(x) => x.clone(),
                    _ => return Err(Stop::Unsup(name.into())),
                };
                let ew = match &atys[atys.len() - 1].0 {
                    Ty::Vec(_, e) => match **e {
                        Ty::Int(w) => w,
                        _ => 64,
                    },
                    _ => 64,
                };
                match p[2] {
                    "add" | "or" | "and" | "xor" | "mul" => {
                        let op = match p[2] {
                            "add" => BinOp::Add,
                            "or" => BinOp::Or,
                            "and" => BinOp::And,
                            "xor" => BinOp::Xor,
                            _ => BinOp::Mul,
                        };
                        let mut r = xs[0].clone();
                        for x in &xs[1..] {
                            r = self.ibin(op, ew, &r, x)?;
                        }
                        r
                    }
                    "fadd" => {
                        let mut r = a[0].clone();
                        for x in xs.iter() {
                            r = self.fbin(BinOp::FAdd, &r, x)?;
                        }
                        r
                    }
                    _ => return Err(Stop::Unsup(name.into())),
                }
            }
            "fptoui" | "fptosi" => {
                let x = match &a[0] {
                    V::F(x) => *x,
                    V::F32(x) => *x as f64,
                    V::S(n) => self.t.cval[*n as usize].ok_or_else(|| Stop::Unsup("fptoi of symbolic".into()))?,
                    _ => return Err(Stop::Unsup(name.into())),
                };
                let tw = if let Ty::Int(w) = rt { *w } else { 64 };
                if p[0] == "fptoui" {
                    V::I((x as u128).min(msk(tw)))
                } else {
                    let hi = (1i128 << (tw - 1)) - 1;
                    V::I((x as i128).clamp(-hi - 1, hi) as u128 & msk(tw))
                }
            }
            "load" => {
                // load.relative
                let b = i!(0) as u64;
                let o = i!(1) as u64;
                let v = self.mem.load(&mut self.m, &mut self.t, &Ty::Int(32), b.wrapping_add(o))?;
                V::I((b as i64).wrapping_add(sxt(32, v.int()) as i64) as u64 as u128)
            }
            "x86" => match p[1] {
                "xgetbv" => V::I(0),
                "sse2" if p[2] == "pause" => V::U,
                _ => return Err(Stop::Unsup(name.into())),
            },
            "trap" | "ubsantrap" => return Err(Stop::Abort("trap".into())),
            "expect" => a[0].clone(),
            "is_constant" => V::I(0),
            "threadlocal" => a[0].clone(),
            "ptrmask" => V::I(i!(0) & i!(1)),
            "stacksave" => V::I(0),
            "stackrestore" => V::U,
            "scmp" | "ucmp" => {
                let (x, y) = (i!(0), i!(1));
                let o = if p[0] == "ucmp" { x.cmp(&y) } else { sxt(w, x).cmp(&sxt(w, y)) };
                let tw = if let Ty::Int(w) = rt { *w } else { 8 };
                V::I(o as i8 as i128 as u128 & msk(tw))
            }
            _ => return Err(Stop::Unsup(format!("intrinsic {name}"))),
        })
    }

    /// source functions (from debug info) whose code was executed
    pub fn functions(&self) -> Vec<String> {
        let mut dbgs: HashSet<u32> = HashSet::new();
        let mut out: HashSet<String> = HashSet::new();
        for (f, vis) in &self.visited {
            if let Some(b) = &self.m.funcs[*f as usize].body {
                for (i, v) in vis.iter().enumerate() {
                    if *v {
                        for ins in &b.blocks[i].code {
                            if ins.dbg != 0 {
                                dbgs.insert(ins.dbg);
                            }
                        }
                    }
                }
            }
        }
        let mut work: Vec<u32> = dbgs.iter().copied().collect();
        let mut seen = dbgs;
        let mut scopes: HashSet<u32> = HashSet::new();
        while let Some(d) = work.pop() {
            if let Some(l) = self.m.md.get(&d) {
                if let Some(s) = field(l, "scope: !") {
                    scopes.insert(s);
                }
                if let Some(i) = field(l, "inlinedAt: !") {
                    if seen.insert(i) {
                        work.push(i);
                    }
                }
            }
        }
        for s in scopes {
            let mut cur = s;
            for _ in 0..50 {
                let l = match self.m.md.get(&cur) {
                    Some(l) => *l,
                    None => break,
                };
                if l.contains("DISubprogram(") {
                    let n = sfield(l, "linkageName: \"").or_else(|| sfield(l, "name: \"")).unwrap_or("?");
                    let short = sfield(l, "name: \"").unwrap_or("?");
                    let file = field(l, "file: !").and_then(|f| self.m.md.get(&f)).and_then(|l| sfield(l, "filename: \"")).unwrap_or("?");
                    let line = l.find("line: ").map(|k| l[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).unwrap_or_default();
                    out.insert(format!("{file}:{line}\t{short}\t{n}"));
                    break;
                }
                match field(l, "scope: !") {
                    Some(p) => cur = p,
                    None => break,
                }
            }
        }
        let mut v: Vec<String> = out.into_iter().collect();
        v.sort();
        v
    }
}

fn field(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    let s: String = l[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    s.parse().ok()
}
fn sfield<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(k)? + k.len();
    let e = l[i..].find('"')?;
    Some(&l[i..i + e])
}

fn to_s(v: &V) -> V {
    match v {
        V::FB(n) => V::S(*n),
        V::I(x) => V::F(f64::from_bits(*x as u64)),
        v => v.clone(),
    }
}
fn to_fb(v: &V) -> V {
    match v {
        V::S(n) => V::FB(*n),
        V::F(x) => V::I(x.to_bits() as u128),
        v => v.clone(),
    }
}
fn vecof(v: &V, n: u32) -> Rc<Vec<V>> {
    match v {
        V::A(x) => x.clone(),
        _ => Rc::new(vec![v.clone(); n as usize]),
    }
}
fn flt(t: &Ty, d: f64, s: f32) -> V {
    if *t == Ty::F32 {
        V::F32(s)
    } else {
        V::F(d)
    }
}
fn set_path(a: &mut V, idx: &[u32], b: V) -> R<()> {
    if idx.is_empty() {
        *a = b;
        return Ok(());
    }
    match a {
        V::A(xs) => set_path(&mut Rc::make_mut(xs)[idx[0] as usize], &idx[1..], b),
        _ => Err(Stop::Unsup("insertvalue".into())),
    }
}
