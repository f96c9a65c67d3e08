//! Hash-consed terms: reals, booleans and bit-vectors.
use std::collections::HashMap;
use std::fmt::Write;

pub type Nid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Real,
    Bool,
    Bv(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    RVar(String),
    RConst(u64),
    /// real function application: add sub mul div neg sqrt sin cos ...
    RFun(&'static str, Vec<Nid>),
    RIte(Nid, Nid, Nid),
    /// real value of an integer term (signed?)
    RFromBv(bool, Nid),
    BConst(bool),
    /// lt le eq on reals
    RCmp(&'static str, Nid, Nid),
    Not(Nid),
    And(Nid, Nid),
    Or(Nid, Nid),
    Xor(Nid, Nid),
    BvVar(String, u32),
    BvConst(u32, u128),
    BvFun(&'static str, u32, Vec<Nid>),
    BvCmp(&'static str, Nid, Nid),
    Zext(u32, Nid),
    Sext(u32, Nid),
    Extract(u32, u32, Nid),
    Concat(Nid, Nid),
    BvIte(Nid, Nid, Nid),
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub sorts: Vec<Sort>,
    /// concrete f64 value of constant real terms (as the machine computes it)
    pub cval: Vec<Option<f64>>,
    map: HashMap<Node, Nid>,
    pub out: String,
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn sx(w: u32, v: u128) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Terms {
    pub fn new() -> Self {
        Terms { nodes: vec![], sorts: vec![], cval: vec![], map: HashMap::new(), out: String::new() }
    }
    fn mk(&mut self, n: Node, s: Sort, c: Option<f64>) -> Nid {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Nid;
        let o = &mut self.out;
        match &n {
            Node::RVar(v) => writeln!(o, "N {id} rvar {v}"),
            Node::RConst(b) => writeln!(o, "N {id} rconst {b:016x}"),
            Node::RFun(f, a) => {
                write!(o, "N {id} r {f}").unwrap();
                for x in a {
                    write!(o, " {x}").unwrap();
                }
                writeln!(o)
            }
            Node::RIte(c, a, b) => writeln!(o, "N {id} rite {c} {a} {b}"),
            Node::RFromBv(s, a) => writeln!(o, "N {id} rfrombv {} {a}", *s as u8),
            Node::BConst(b) => writeln!(o, "N {id} bconst {}", *b as u8),
            Node::RCmp(f, a, b) => writeln!(o, "N {id} rcmp {f} {a} {b}"),
            Node::Not(a) => writeln!(o, "N {id} not {a}"),
            Node::And(a, b) => writeln!(o, "N {id} and {a} {b}"),
            Node::Or(a, b) => writeln!(o, "N {id} or {a} {b}"),
            Node::Xor(a, b) => writeln!(o, "N {id} xor {a} {b}"),
            Node::BvVar(v, w) => writeln!(o, "N {id} bvvar {v} {w}"),
            Node::BvConst(w, v) => writeln!(o, "N {id} bvconst {w} {v}"),
            Node::BvFun(f, w, a) => {
                write!(o, "N {id} bv {f} {w}").unwrap();
                for x in a {
                    write!(o, " {x}").unwrap();
                }
                writeln!(o)
            }
            Node::BvCmp(f, a, b) => writeln!(o, "N {id} bvcmp {f} {a} {b}"),
            Node::Zext(w, a) => writeln!(o, "N {id} zext {w} {a}"),
            Node::Sext(w, a) => writeln!(o, "N {id} sext {w} {a}"),
            Node::Extract(h, l, a) => writeln!(o, "N {id} extract {h} {l} {a}"),
            Node::Concat(a, b) => writeln!(o, "N {id} concat {a} {b}"),
            Node::BvIte(c, a, b) => writeln!(o, "N {id} bvite {c} {a} {b}"),
        }
        .unwrap();
        self.nodes.push(n.clone());
        self.sorts.push(s);
        self.cval.push(c);
        self.map.insert(n, id);
        id
    }
    pub fn sort(&self, n: Nid) -> Sort {
        self.sorts[n as usize]
    }
    pub fn rvar(&mut self, name: String) -> Nid {
        self.mk(Node::RVar(name), Sort::Real, None)
    }
    pub fn rconst(&mut self, v: f64) -> Nid {
        let v = if v == 0.0 { 0.0 } else { v };
        self.mk(Node::RConst(v.to_bits()), Sort::Real, Some(v))
    }
    fn rc(&self, n: Nid) -> Option<f64> {
        match self.nodes[n as usize] {
            Node::RConst(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    /// builds a real term; `conc` is the machine value if all arguments are constant terms
    pub fn rfun(&mut self, f: &'static str, a: &[Nid], conc: Option<f64>) -> Nid {
        // light simplifications that are valid over the reals
        if a.len() == 2 {
            let (x, y) = (a[0], a[1]);
            let (cx, cy) = (self.rc(x), self.rc(y));
            match f {
                "add" => {
                    if cx == Some(0.0) {
                        return y;
                    }
                    if cy == Some(0.0) {
                        return x;
                    }
                }
                "sub" => {
                    if cy == Some(0.0) {
                        return x;
                    }
                    if x == y {
                        return self.rconst(0.0);
                    }
                    if cx == Some(0.0) {
                        return self.rfun("neg", &[y], conc);
                    }
                }
                "mul" => {
                    if cx == Some(0.0) || cy == Some(0.0) {
                        return self.rconst(0.0);
                    }
                    if cx == Some(1.0) {
                        return y;
                    }
                    if cy == Some(1.0) {
                        return x;
                    }
                    if cx == Some(-1.0) {
                        return self.rfun("neg", &[y], conc);
                    }
                    if cy == Some(-1.0) {
                        return self.rfun("neg", &[x], conc);
                    }
                }
                "div" => {
                    if cy == Some(1.0) {
                        return x;
                    }
                }
                _ => {}
            }
            if f == "add" || f == "mul" {
                let mut v = [x, y];
                v.sort();
                return self.mk(Node::RFun(f, v.to_vec()), Sort::Real, conc);
            }
        } else if f == "neg" {
            if let Node::RFun("neg", v) = &self.nodes[a[0] as usize] {
                return v[0];
            }
            if let Some(c) = self.rc(a[0]) {
                return self.rconst(-c);
            }
        }
        self.mk(Node::RFun(f, a.to_vec()), Sort::Real, conc)
    }
    pub fn bconst(&mut self, b: bool) -> Nid {
        self.mk(Node::BConst(b), Sort::Bool, None)
    }
    pub fn bool_val(&self, n: Nid) -> Option<bool> {
        match self.nodes[n as usize] {
            Node::BConst(b) => Some(b),
            _ => None,
        }
    }
    pub fn rcmp(&mut self, f: &'static str, a: Nid, b: Nid) -> Nid {
        if let (Some(x), Some(y)) = (self.cval[a as usize], self.cval[b as usize]) {
            let r = match f {
                "lt" => x < y,
                "le" => x <= y,
                _ => x == y,
            };
            return self.bconst(r);
        }
        // comparison against infinities: symbolic reals are finite
        for (i, c) in [(0, self.cval[a as usize]), (1, self.cval[b as usize])] {
            if let Some(c) = c {
                if c.is_nan() {
                    return self.bconst(false);
                }
                if c.is_infinite() {
                    let left = i == 0;
                    let r = match f {
                        "eq" => false,
                        _ => (c > 0.0) != left,
                    };
                    return self.bconst(r);
                }
            }
        }
        if a == b {
            return self.bconst(f != "lt");
        }
        self.mk(Node::RCmp(f, a, b), Sort::Bool, None)
    }
    pub fn not(&mut self, a: Nid) -> Nid {
        match self.nodes[a as usize] {
            Node::BConst(b) => self.bconst(!b),
            Node::Not(x) => x,
            _ => self.mk(Node::Not(a), Sort::Bool, None),
        }
    }
    pub fn and(&mut self, a: Nid, b: Nid) -> Nid {
        match (self.bool_val(a), self.bool_val(b)) {
            (Some(false), _) | (_, Some(false)) => self.bconst(false),
            (Some(true), _) => b,
            (_, Some(true)) => a,
            _ if a == b => a,
            _ => self.mk(Node::And(a, b), Sort::Bool, None),
        }
    }
    pub fn or(&mut self, a: Nid, b: Nid) -> Nid {
        match (self.bool_val(a), self.bool_val(b)) {
            (Some(true), _) | (_, Some(true)) => self.bconst(true),
            (Some(false), _) => b,
            (_, Some(false)) => a,
            _ if a == b => a,
            _ => self.mk(Node::Or(a, b), Sort::Bool, None),
        }
    }
    pub fn xor(&mut self, a: Nid, b: Nid) -> Nid {
        match (self.bool_val(a), self.bool_val(b)) {
            (Some(x), Some(y)) => self.bconst(x ^ y),
            (Some(x), None) => {
                if x {
                    self.not(b)
                } else {
                    b
                }
            }
            (None, Some(_)) => self.xor(b, a),
            _ => self.mk(Node::Xor(a, b), Sort::Bool, None),
        }
    }
    pub fn bvvar(&mut self, name: String, w: u32) -> Nid {
        self.mk(Node::BvVar(name, w), Sort::Bv(w), None)
    }
    pub fn bvconst(&mut self, w: u32, v: u128) -> Nid {
        self.mk(Node::BvConst(w, v & mask(w)), Sort::Bv(w), None)
    }
    pub fn bvc(&self, n: Nid) -> Option<u128> {
        match self.nodes[n as usize] {
            Node::BvConst(_, v) => Some(v),
            _ => None,
        }
    }
    fn width(&self, n: Nid) -> u32 {
        match self.sort(n) {
            Sort::Bv(w) => w,
            _ => 1,
        }
    }
    pub fn bvfun(&mut self, f: &'static str, a: Nid, b: Nid) -> Nid {
        let w = self.width(a);
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.bvc(a), self.bvc(b)) {
            let r = match f {
                "add" => Some(x.wrapping_add(y)),
                "sub" => Some(x.wrapping_sub(y)),
                "mul" => Some(x.wrapping_mul(y)),
                "and" => Some(x & y),
                "or" => Some(x | y),
                "xor" => Some(x ^ y),
                "shl" if y < w as u128 => Some(x << y),
                "lshr" if y < w as u128 => Some(x >> y),
                "ashr" if y < w as u128 => Some((sx(w, x) >> y) as u128),
                _ => None,
            };
            if let Some(r) = r {
                return self.bvconst(w, r & m);
            }
        }
        match (f, self.bvc(a), self.bvc(b)) {
            ("and", _, Some(0)) | ("and", Some(0), _) | ("mul", _, Some(0)) | ("mul", Some(0), _) => {
                return self.bvconst(w, 0)
            }
            ("and", _, Some(y)) if y == m => return a,
            ("and", Some(x), _) if x == m => return b,
            ("or" | "xor" | "add", Some(0), _) => return b,
            ("or" | "xor" | "add" | "sub" | "shl" | "lshr" | "ashr", _, Some(0)) => return a,
            _ => {}
        }
        self.mk(Node::BvFun(f, w, vec![a, b]), Sort::Bv(w), None)
    }
    pub fn bvcmp(&mut self, f: &'static str, a: Nid, b: Nid) -> Nid {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.bvc(a), self.bvc(b)) {
            let r = match f {
                "eq" => x == y,
                "ult" => x < y,
                "ule" => x <= y,
                "slt" => sx(w, x) < sx(w, y),
                _ => sx(w, x) <= sx(w, y),
            };
            return self.bconst(r);
        }
        if a == b {
            return self.bconst(f == "eq" || f == "ule" || f == "sle");
        }
        self.mk(Node::BvCmp(f, a, b), Sort::Bool, None)
    }
    pub fn zext(&mut self, w: u32, a: Nid) -> Nid {
        if let Some(x) = self.bvc(a) {
            return self.bvconst(w, x);
        }
        if self.width(a) == w {
            return a;
        }
        self.mk(Node::Zext(w, a), Sort::Bv(w), None)
    }
    pub fn sext(&mut self, w: u32, a: Nid) -> Nid {
        if let Some(x) = self.bvc(a) {
            let wa = self.width(a);
            return self.bvconst(w, sx(wa, x) as u128);
        }
        self.mk(Node::Sext(w, a), Sort::Bv(w), None)
    }
    pub fn extract(&mut self, hi: u32, lo: u32, a: Nid) -> Nid {
        let w = hi - lo + 1;
        if let Some(x) = self.bvc(a) {
            return self.bvconst(w, x >> lo);
        }
        if lo == 0 && w == self.width(a) {
            return a;
        }
        match self.nodes[a as usize].clone() {
            Node::Extract(_, l2, b) => return self.extract(hi + l2, lo + l2, b),
            Node::Concat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    return self.extract(hi - lw, lo - lw, h);
                }
                if hi < lw {
                    return self.extract(hi, lo, l);
                }
            }
            Node::Zext(_, b) => {
                let bw = self.width(b);
                if lo >= bw {
                    return self.bvconst(w, 0);
                }
                if hi < bw {
                    return self.extract(hi, lo, b);
                }
            }
            _ => {}
        }
        self.mk(Node::Extract(hi, lo, a), Sort::Bv(w), None)
    }
    pub fn concat(&mut self, h: Nid, l: Nid) -> Nid {
        let (wh, wl) = (self.width(h), self.width(l));
        if let (Some(x), Some(y)) = (self.bvc(h), self.bvc(l)) {
            return self.bvconst(wh + wl, (x << wl) | y);
        }
        if let (Node::Extract(h1, l1, a), Node::Extract(h2, l2, b)) =
            (self.nodes[h as usize].clone(), self.nodes[l as usize].clone())
        {
            if a == b && l1 == h2 + 1 {
                return self.extract(h1, l2, a);
            }
        }
        self.mk(Node::Concat(h, l), Sort::Bv(wh + wl), None)
    }
    pub fn bvite(&mut self, c: Nid, a: Nid, b: Nid) -> Nid {
        if let Some(v) = self.bool_val(c) {
            return if v { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        self.mk(Node::BvIte(c, a, b), Sort::Bv(w), None)
    }
    pub fn rite(&mut self, c: Nid, a: Nid, b: Nid) -> Nid {
        if let Some(v) = self.bool_val(c) {
            return if v { a } else { b };
        }
        if a == b {
            return a;
        }
        self.mk(Node::RIte(c, a, b), Sort::Real, None)
    }
    pub fn rfrombv(&mut self, signed: bool, a: Nid) -> Nid {
        self.mk(Node::RFromBv(signed, a), Sort::Real, None)
    }
}
