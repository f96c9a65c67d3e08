//! The g2o loader: what it builds from a file against what the file says.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linalg::*;
use factrs::traits::*;
use factrs::utils::load_g20;
use factrs::variables::*;
use harness::*;
use std::fmt::Write;
#[path = "../lie.rs"]
mod lie;
use lie::*;

assign_symbols!(X: SE2, SE3);

struct Out {
    text: String,
    next: u32,
}
impl Out {
    fn new() -> Self {
        Out { text: String::new(), next: 2 }
    }
    /// appends a number to the line, returns what it stands for
    fn num(&mut self, v: f64) -> f64 {
        self.next += 1;
        self.text.push(' ');
        self.text.push_str(&num(v, self.next as f64 + 0.0009765625));
        v
    }
    fn id(&mut self, k: usize) {
        write!(self.text, " {}", k).unwrap();
    }
    fn load(&self) -> (Graph, Values) {
        file("graph.g2o", self.text.as_bytes());
        load_g20("graph.g2o")
    }
}
/// the lower triangular root of an information matrix, row by row
fn info<const N: usize>(name: &str) -> [[f64; N]; N] {
    let mut l = [[0.0; N]; N];
    let mut k = 0;
    for i in 0..N {
        for j in 0..=i {
            l[i][j] = any_i(name, k);
            k += 1;
            if i == j {
                assume(l[i][j] > 0.0);
            }
        }
    }
    l
}
/// entry of the information matrix L*L^T
fn entry<const N: usize>(l: &[[f64; N]; N], i: usize, j: usize) -> f64 {
    let mut s = 0.0;
    for k in 0..N {
        s += l[i][k] * l[j][k];
    }
    s
}
/// r^T L L^T r
fn quad<const N: usize>(l: &[[f64; N]; N], r: &VectorX) -> f64 {
    let mut q = 0.0;
    for k in 0..N {
        let mut s = 0.0;
        for i in 0..N {
            s += l[i][k] * r[i];
        }
        q += s * s;
    }
    q
}

const SYMBOLIC: usize = usize::MAX;
const NONE: usize = 6;
const ANGLE: [f64; 7] = [0.3, -1.1, 0.7, 1.9, -0.45, 0.6, 0.0];
const QUAT: [[f64; 4]; 7] = [
    [0.2, 0.4, -0.4, 0.8],
    [1.0 / 11.0, -2.0 / 11.0, 4.0 / 11.0, 10.0 / 11.0],
    [-2.0 / 9.0, 4.0 / 9.0, 5.0 / 9.0, 6.0 / 9.0],
    [0.1, -0.7, 0.5, 0.5],
    [1.0 / 6.0, 3.0 / 6.0, -1.0 / 6.0, 5.0 / 6.0],
    [0.7, 0.1, 0.1, 0.7],
    [0.0, 0.0, 0.0, 1.0],
];

trait G2o: Sym {
    /// a pose with the k-th fixed rotation and an arbitrary translation (rotation too if SYMBOLIC)
    fn state(name: &str, k: usize) -> Self;
    /// writes the fields of such a pose
    fn pose(o: &mut Out, name: &str, k: usize) -> Self;
    fn vertex(o: &mut Out, id: usize, name: &str, k: usize) -> Self;
    /// squared whitened error of the anchor
    fn prior(&self, x: &Self) -> f64;
    /// writes an edge; returns its measurement and its squared whitened error as a function of the residual
    fn edge(o: &mut Out, a: usize, b: usize, name: &str, k: usize, unit: bool) -> (Self, Box<dyn Fn(&VectorX) -> f64>);
    fn put(v: &mut Values, id: usize, x: Self);
    fn same_at(label: &str, v: &Values, id: usize, x: &Self);
}
impl G2o for SE2 {
    fn state(name: &str, k: usize) -> Self {
        let [x, y] = any_n::<2>(&nm(name, "_t"));
        SE2::new(if k == SYMBOLIC { any(&nm(name, "_th")) } else { ANGLE[k] }, x, y)
    }
    fn pose(o: &mut Out, name: &str, k: usize) -> Self {
        let [x, y] = any_n::<2>(&nm(name, "_t"));
        o.num(x);
        o.num(y);
        let t = if k == SYMBOLIC { any(&nm(name, "_th")) } else { ANGLE[k] };
        if k == SYMBOLIC {
            o.num(t);
        } else {
            o.text.push(' ');
            o.text.push_str(["0.3", "-1.1", "0.7", "1.9", "-0.45", "0.6", "0"][k]);
        }
        SE2::new(t, x, y)
    }
    fn vertex(o: &mut Out, id: usize, name: &str, k: usize) -> Self {
        o.text.push_str("VERTEX_SE2");
        o.id(id);
        let p = Self::pose(o, name, k);
        o.text.push('\n');
        p
    }
    fn prior(&self, x: &Self) -> f64 {
        self.ominus(x).iter().map(|a| a * a).sum()
    }
    fn edge(o: &mut Out, a: usize, b: usize, name: &str, k: usize, unit: bool) -> (Self, Box<dyn Fn(&VectorX) -> f64>) {
        o.text.push_str("EDGE_SE2");
        o.id(a);
        o.id(b);
        let p = Self::pose(o, name, k);
        if unit {
            o.text.push_str(" 1 0 0 1 0 1\n");
            return (p, Box::new(|r| r.iter().map(|x| x * x).sum()));
        }
        let l = info::<3>(&nm(name, "_inf"));
        // g2o: x, y, theta; here: theta, x, y
        let perm = [1, 2, 0];
        for i in 0..3 {
            for j in i..3 {
                o.num(entry(&l, perm[i], perm[j]));
            }
        }
        o.text.push('\n');
        (p, Box::new(move |r| quad(&l, r)))
    }
    fn put(v: &mut Values, id: usize, x: Self) {
        v.insert(X(id as u64), x);
    }
    fn same_at(label: &str, v: &Values, id: usize, x: &Self) {
        match v.get::<_, SE2>(X(id as u64)) {
            Some(y) => same(label, y, x),
            None => holds(label, false),
        }
    }
}
impl G2o for SE3 {
    fn state(name: &str, k: usize) -> Self {
        let t = any_n::<3>(&nm(name, "_t"));
        let q = if k == SYMBOLIC { any_unit::<4>(&nm(name, "_q")) } else { QUAT[k] };
        SE3::from_rot_trans(SO3::from_xyzw(q[0], q[1], q[2], q[3]), Vector3::new(t[0], t[1], t[2]))
    }
    fn pose(o: &mut Out, name: &str, k: usize) -> Self {
        let p = Self::state(name, k);
        let t = any_n::<3>(&nm(name, "_t"));
        for x in t {
            o.num(x);
        }
        let q = if k == SYMBOLIC { any_unit::<4>(&nm(name, "_q")) } else { QUAT[k] };
        if k == NONE {
            o.text.push_str(" 0 0 0 1");
        } else {
            for x in q {
                o.num(x);
            }
        }
        p
    }
    fn vertex(o: &mut Out, id: usize, name: &str, k: usize) -> Self {
        o.text.push_str("VERTEX_SE3:QUAT");
        o.id(id);
        let p = Self::pose(o, name, k);
        o.text.push('\n');
        p
    }
    fn prior(&self, x: &Self) -> f64 {
        let r = self.ominus(x);
        (0..6).map(|i| r[i] * r[i] * if i < 3 { 1e6 } else { 1e4 }).sum()
    }
    fn edge(o: &mut Out, a: usize, b: usize, name: &str, k: usize, unit: bool) -> (Self, Box<dyn Fn(&VectorX) -> f64>) {
        o.text.push_str("EDGE_SE3:QUAT");
        o.id(a);
        o.id(b);
        let p = Self::pose(o, name, k);
        if unit {
            o.text.push_str(" 1 0 0 0 0 0 1 0 0 0 0 1 0 0 0 1 0 0 1 0 1\n");
            return (p, Box::new(|r| r.iter().map(|x| x * x).sum()));
        }
        let l = info::<6>(&nm(name, "_inf"));
        // g2o: translation, rotation; here: rotation, translation
        let perm = [3, 4, 5, 0, 1, 2];
        for i in 0..6 {
            for j in i..6 {
                o.num(entry(&l, perm[i], perm[j]));
            }
        }
        o.text.push('\n');
        (p, Box::new(move |r| quad(&l, r)))
    }
    fn put(v: &mut Values, id: usize, x: Self) {
        v.insert(X(id as u64), x);
    }
    fn same_at(label: &str, v: &Values, id: usize, x: &Self) {
        match v.get::<_, SE3>(X(id as u64)) {
            Some(y) => same(label, y, x),
            None => holds(label, false),
        }
    }
}

/// exactly the variables of the file
fn vertices<P: G2o>(ids: &[usize], k: usize) {
    let mut o = Out::new();
    let mut want = vec![];
    for (i, id) in ids.iter().enumerate() {
        want.push(P::vertex(&mut o, *id, ["a", "b", "c"][i], if k == SYMBOLIC { k } else { i }));
    }
    let (g, v) = o.load();
    ieq("count", v.len() as u64, ids.len() as u64);
    for (i, id) in ids.iter().enumerate() {
        P::same_at(["va", "vb", "vc"][i], &v, *id, &want[i]);
    }
    ieq("factors", g.len() as u64, 1);
    mark("reached");
    if k == SYMBOLIC {
        return;
    }
    // the anchor: judged at other states
    let mut w = Values::new();
    let mut st = vec![];
    for (i, id) in ids.iter().enumerate() {
        let x = P::state(["wa", "wb", "wc"][i], 3 + i);
        P::put(&mut w, *id, x.clone());
        st.push(x);
    }
    eq("anchor", 2.0 * g.error(&w), want[0].prior(&st[0]));
}
/// the anchor of a vertex with any rotation, judged at the origin
fn anchor<P: G2o>() {
    let mut o = Out::new();
    let p = P::vertex(&mut o, 3, "a", SYMBOLIC);
    let (g, _) = o.load();
    let mut w = Values::new();
    P::put(&mut w, 3, P::identity());
    mark("reached");
    eq("anchor", 2.0 * g.error(&w), p.prior(&P::identity()));
}

/// two vertices, one edge and a line that is neither, in every order
fn lines<P: G2o>(order: usize, ids: [usize; 2]) {
    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order % 6];
    let junk = order / 6;
    let mut o = Out::new();
    let (mut va, mut vb, mut e) = (None, None, None);
    for k in 0..3 {
        if junk == k + 1 {
            o.text.push_str("FIX 3\n");
        }
        match perm[k] {
            0 => va = Some(P::vertex(&mut o, ids[0], "a", NONE)),
            1 => vb = Some(P::vertex(&mut o, ids[1], "b", NONE)),
            _ => e = Some(P::edge(&mut o, ids[0], ids[1], "z", NONE, true)),
        }
    }
    let (va, vb, (z, q)) = (va.unwrap(), vb.unwrap(), e.unwrap());
    let first = perm.iter().find(|x| **x < 2).unwrap();
    let (g, v) = o.load();
    ieq("count", v.len() as u64, 2);
    ieq("factors", g.len() as u64, 2);
    P::same_at("va", &v, ids[0], &va);
    P::same_at("vb", &v, ids[1], &vb);
    let (wa, wb) = (P::state("wa", NONE), P::state("wb", NONE));
    let mut w = Values::new();
    P::put(&mut w, ids[0], wa.clone());
    P::put(&mut w, ids[1], wb.clone());
    let prior = if *first == 0 { va.prior(&wa) } else { vb.prior(&wb) };
    let r = wa.compose(&z).ominus(&wb);
    mark("reached");
    eq("error", 2.0 * g.error(&w), prior + q(&r));
}

/// an edge alone
fn edge<P: G2o>(ids: [usize; 2], k: [usize; 3], unit: bool) {
    let mut o = Out::new();
    let (z, q) = P::edge(&mut o, ids[0], ids[1], "z", k[0], unit);
    let (g, v) = o.load();
    ieq("count", v.len() as u64, 0);
    ieq("factors", g.len() as u64, 1);
    let (wa, wb) = if k[0] == SYMBOLIC { (P::identity(), P::identity()) } else { (P::state("wa", k[1]), P::state("wb", k[2])) };
    let mut w = Values::new();
    P::put(&mut w, ids[0], wa.clone());
    P::put(&mut w, ids[1], wb.clone());
    let r = wa.compose(&z).ominus(&wb);
    mark("reached");
    eq("error", 2.0 * g.error(&w), q(&r));
}

/// a loop of three vertices and three edges
fn cycle<P: G2o>(unit: bool) {
    let mut o = Out::new();
    let ids = [4, 0, 12];
    let vs: Vec<P> = (0..3).map(|k| P::vertex(&mut o, ids[k], ["a", "b", "c"][k], NONE)).collect();
    let es: Vec<_> = (0..3).map(|k| P::edge(&mut o, ids[k], ids[(k + 1) % 3], ["z0", "z1", "z2"][k], NONE, unit)).collect();
    let (g, v) = o.load();
    ieq("count", v.len() as u64, 3);
    ieq("factors", g.len() as u64, 4);
    let ws: Vec<P> = (0..3).map(|k| P::state(["wa", "wb", "wc"][k], NONE)).collect();
    let mut w = Values::new();
    for k in 0..3 {
        P::same_at(["va", "vb", "vc"][k], &v, ids[k], &vs[k]);
        P::put(&mut w, ids[k], ws[k].clone());
    }
    let mut want = vs[0].prior(&ws[0]);
    for k in 0..3 {
        want += (es[k].1)(&ws[k].compose(&es[k].0).ominus(&ws[(k + 1) % 3]));
    }
    mark("reached");
    eq("error", 2.0 * g.error(&w), want);
}

entries! {
    fn empty() {
        let o = Out::new();
        let (g, v) = o.load();
        mark("reached");
        ieq("count", v.len() as u64, 0);
        ieq("factors", g.len() as u64, 0);
    }
    fn se2_values() { vertices::<SE2>(&[7, 2, 4000000000], SYMBOLIC); }
    fn se2_vertices1() { vertices::<SE2>(&[5], 0); }
    fn se2_vertices3() { vertices::<SE2>(&[7, 2, 9], 0); }
    fn se2_anchor() { anchor::<SE2>(); }
    fn se2_edge_any() { edge::<SE2>([3, 1], [SYMBOLIC; 3], true); }
    fn se2_edge0() { edge::<SE2>([3, 1], [0, 1, 2], false); }
    fn se2_edge1() { edge::<SE2>([0, 1], [5, 3, 4], false); }
    fn se2_lines() { lines::<SE2>(choice("order", 24), [0, 1]); }
    fn se2_cycle() { cycle::<SE2>(false); }
    fn se3_values() { vertices::<SE3>(&[7, 2, 4000000000], SYMBOLIC); }
    fn se3_vertices1() { vertices::<SE3>(&[5], 0); }
    fn se3_vertices3() { vertices::<SE3>(&[7, 2, 9], 0); }
    fn se3_anchor() { anchor::<SE3>(); }
    fn se3_edge_any() { edge::<SE3>([3, 1], [SYMBOLIC; 3], true); }
    fn se3_edge0() { edge::<SE3>([3, 1], [0, 1, 2], false); }
    fn se3_edge1() { edge::<SE3>([0, 1], [5, 3, 4], false); }
    fn se3_lines() { lines::<SE3>(choice("order", 24), [0, 1]); }
    fn se3_cycle() { cycle::<SE3>(false); }
}
