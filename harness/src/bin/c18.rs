//! Symbols and keys as bit-vectors.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::symbols;
use factrs::variables::*;
use harness::*;
use std::fmt::Write;

assign_symbols!(X: SO2; Yaw: SO2, SE2; L: VectorVar3);

/// every valid character
fn any_char(name: &str) -> char {
    let u = any_bv(name, 32) as u32;
    match char::from_u32(u) {
        Some(c) => c,
        None => {
            assume(false);
            'x'
        }
    }
}
fn any_idx(name: &str) -> u64 {
    let i = any_u64(name);
    assume(i < 1 << 32);
    i
}
fn pack(c: char, i: u64) -> u64 {
    Key::from(DefaultSymbol::new(c, i)).0
}
struct Sink([u8; 32], usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0[self.1] = b;
            self.1 += 1;
        }
        Ok(())
    }
}
fn text(s: &dyn std::fmt::Debug) -> Sink {
    let mut w = Sink([0; 32], 0);
    let _ = write!(w, "{:?}", s);
    w
}
fn shows(label: &str, s: &dyn std::fmt::Debug, c: char, idx: &str) {
    let w = text(s);
    let mut e = Sink([0; 32], 0);
    let _ = e.write_str("(");
    let _ = e.write_char(c);
    let _ = e.write_str(", ");
    let _ = e.write_str(idx);
    let _ = e.write_str(")");
    ieq(label, w.1 as u64, e.1 as u64);
    for i in 0..e.1.min(w.1) {
        ieq_i(label, i, w.0[i] as u64, e.0[i] as u64);
    }
}
macro_rules! letters {
    ($i:expr, $($n:ident $c:literal),*) => {
        $( ieq(concat!("letter ", stringify!($n)), Key::from(symbols::$n($i)).0, pack($c, $i)); )*
    };
}

entries! {
    fn distinct() {
        let (c, d) = (any_char("c"), any_char("d"));
        let (i, j) = (any_idx("i"), any_idx("j"));
        holds("equal keys mean equal symbols", pack(c, i) != pack(d, j) || (c == d && i == j));
        mark("reached");
    }
    fn deterministic() {
        let (c, i) = (any_char("c"), any_u64("i"));
        ieq("same", pack(c, i), pack(c, i));
        // the character decides the upper half whatever the index
        let d = any_char("d");
        let j = any_idx("j");
        holds("characters keep apart", c == d || pack(c, i & 0xFFFF_FFFF) != pack(d, j));
        mark("reached");
    }
    fn round_trip() {
        let (c, i) = (any_char("c"), any_idx("i"));
        let k = Key::from(DefaultSymbol::new(c, i));
        let back = Key::from(DefaultSymbol::from(k));
        ieq("key", back.0, k.0);
        mark("reached");
    }
    /// the decoded character, read off the printed form
    fn decoded_char() {
        let c = any_char("c");
        let (i, s) = [(0, "0"), (7, "7"), (4294967295, "4294967295")][choice("i", 3)];
        let k = Key::from(DefaultSymbol::new(c, i));
        shows("char", &DefaultSymbol::from(k), c, s);
        shows("char before", &DefaultSymbol::new(c, i), c, s);
        mark("reached");
    }
    fn decoded_index() {
        let n = choice("i", 14);
        let (i, s) = [(0, "0"), (9, "9"), (10, "10"), (99, "99"), (100, "100"), (1000, "1000"), (9999, "9999"), (10000, "10000"), (65535, "65535"),
            (65536, "65536"), (123456789, "123456789"), (2147483648, "2147483648"), (4294967294, "4294967294"), (4294967295, "4294967295")][n];
        for c in ['a', 'z', 'X', 'é', 'λ', '\u{1F600}', '\u{10FFFF}', '\0'] {
            shows("index", &DefaultSymbol::from(Key::from(DefaultSymbol::new(c, i))), c, s);
        }
        shows("typed", &X(i), 'x', s);
        shows("untyped", &symbols::B(i), 'b', s);
        mark("reached");
    }
    /// any symbol of one decimal digit
    fn decoded_digit() {
        let i = any_u64("i");
        assume(i < 10);
        let w = text(&DefaultSymbol::from(Key::from(DefaultSymbol::new('q', i))));
        ieq("len", w.1 as u64, 6);
        ieq("digit", w.0[4] as u64, i + 48);
        mark("reached");
    }
    fn typed() {
        let i = any_u64("i");
        ieq("x", Key::from(X(i)).0, pack('x', i));
        ieq("yaw", Key::from(Yaw(i)).0, pack('y', i));
        ieq("l", Key::from(L(i)).0, pack('l', i));
        ieq("default symbol", Key::from(DefaultSymbol::from(X(i))).0, pack('x', i));
        ieq("untyped", Key::from(symbols::X(i)).0, Key::from(X(i)).0);
        ieq("key", Key::from(Key(i)).0, i);
        letters!(i, A 'a', B 'b', C 'c', D 'd', E 'e', F 'f', G 'g', H 'h', I 'i', J 'j', K 'k', L 'l', M 'm', N 'n', O 'o', P 'p', Q 'q', R 'r', S 's', T 't', U 'u', V 'v', W 'w', X 'x', Y 'y', Z 'z');
        mark("reached");
    }
    fn keys_compare() {
        let (a, b) = (Key(any_u64("a")), Key(any_u64("b")));
        ieq("eq", (a == b) as u64, (a.0 == b.0) as u64);
        mark("reached");
    }
}
