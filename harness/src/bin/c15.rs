//! Graph error and sparse assembly against the dense definition.
use factrs::containers::*;
use factrs::linalg::*;
use factrs::linear::*;
use factrs::noise::*;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::variables::*;
use factrs::{assign_symbols, fac};
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

assign_symbols!(X: VectorVar1; Y: VectorVar2; Z: VectorVar3; P: SE2);

const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

/// blocks of the given dimensions laid out in the order of `perm`
fn order(keys: &[Key], dims: &[usize], perm: &[usize]) -> (ValuesOrder, Vec<usize>) {
    let mut map = ahash::HashMap::default();
    let mut at = vec![0; keys.len()];
    let mut off = 0;
    for &k in perm {
        at[k] = off;
        map.insert(keys[k], Idx { idx: off, dim: dims[k] });
        off += dims[k];
    }
    (ValuesOrder::new(map), at)
}

/// one factor of the reference: which variables, its A (row major) and its b
struct Ref {
    vars: Vec<usize>,
    a: MatrixX,
    b: Vec<f64>,
}
fn dense(refs: &[Ref], dims: &[usize], at: &[usize], total: usize) -> (MatrixX, Vec<f64>) {
    let rows: usize = refs.iter().map(|r| r.b.len()).sum();
    let mut m = MatrixX::zeros(rows, total);
    let mut b = vec![];
    let mut row = 0;
    for r in refs {
        let mut c0 = 0;
        for &v in &r.vars {
            for i in 0..r.b.len() {
                for j in 0..dims[v] {
                    m[(row + i, at[v] + j)] += r.a[(i, c0 + j)];
                }
            }
            c0 += dims[v];
        }
        b.extend_from_slice(&r.b);
        row += r.b.len();
    }
    (m, b)
}
fn compare(d: &DiffResult<faer::Mat<f64>, faer::sparse::SparseColMat<usize, f64>>, m: &MatrixX, b: &[f64]) {
    let jac = d.diff.as_ref();
    ieq("rows", jac.nrows() as u64, m.nrows() as u64);
    ieq("cols", jac.ncols() as u64, m.ncols() as u64);
    ieq("residual rows", d.value.nrows() as u64, b.len() as u64);
    ieq("residual cols", d.value.ncols() as u64, 1);
    for i in 0..b.len() {
        eq_i("residual", i, d.value.read(i, 0), b[i]);
    }
    let mut got = MatrixX::zeros(m.nrows(), m.ncols());
    for j in 0..m.ncols() {
        for (i, v) in jac.row_indices_of_col(j).zip(jac.values_of_col(j)) {
            got[(i, j)] += *v;
        }
    }
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            eq_i("jacobian", i * 100 + j, got[(i, j)], m[(i, j)]);
        }
    }
}
/// factor `n` with arbitrary entries
fn lin(n: usize, vars: &[usize], rows: usize, dims: &[usize]) -> Ref {
    let cols: usize = vars.iter().map(|v| dims[*v]).sum();
    let name = ["a0", "a1", "a2", "a3", "a4"][n];
    let bn = ["b0", "b1", "b2", "b3", "b4"][n];
    Ref { vars: vars.to_vec(), a: MatrixX::from_fn(rows, cols, |i, j| any_i(name, i * cols + j)), b: (0..rows).map(|i| any_i(bn, i)).collect() }
}
fn linear_factor(r: &Ref, keys: &[Key], dims: &[usize]) -> LinearFactor {
    let mut idx = vec![];
    let mut c = 0;
    for &v in &r.vars {
        idx.push(c);
        c += dims[v];
    }
    LinearFactor::new(r.vars.iter().map(|v| keys[*v]).collect(), MatrixBlock::new(r.a.clone(), idx), VectorX::from_vec(r.b.clone()))
}
/// a linear graph of the given shapes, in the chosen column order
fn shape(dims: &[usize; 3], shapes: &[(&[usize], usize)], perm: &[usize; 3], from_vec: bool) {
    let keys = [Key(900), Key(3), Key(77)];
    let refs: Vec<Ref> = shapes.iter().enumerate().map(|(n, (v, r))| lin(n, v, *r, dims)).collect();
    let (ord, at) = order(&keys, dims, perm);
    let total = dims.iter().sum();
    let g = if from_vec {
        LinearGraph::from_vec(refs.iter().map(|r| linear_factor(r, &keys, dims)).collect())
    } else {
        let mut g = LinearGraph::new();
        for r in &refs {
            g.add_factor(linear_factor(r, &keys, dims));
        }
        g
    };
    let x: Vec<f64> = (0..total).map(|i| any_i("x", i)).collect();
    let (m, b) = dense(&refs, dims, &at, total);
    let go = g.sparsity_pattern(ord.clone());
    for k in 0..3 {
        ieq_i("order idx", k, go.order.get(keys[k]).unwrap().idx as u64, at[k] as u64);
        ieq_i("order dim", k, go.order.get(keys[k]).unwrap().dim as u64, dims[k] as u64);
    }
    compare(&g.residual_jacobian(&go), &m, &b);
    // error = sum of |Ax - b|^2 / 2
    let lv = LinearValues::from_order_and_vector(ord, VectorX::from_vec(x.clone()));
    let mut e = 0.0;
    for i in 0..b.len() {
        let mut s = -b[i];
        for j in 0..total {
            s += m[(i, j)] * x[j];
        }
        e += s * s / 2.0;
    }
    eq("linear error", g.error(&lv), e);
    mark("reached");
}

/// the nonlinear graph: factors of several types over several dimensions
fn scene() -> (Values, [Key; 3], [usize; 3]) {
    let mut v = Values::new();
    v.insert(X(4), VectorVar1::any("x"));
    v.insert(Y(0), VectorVar2::any("y"));
    v.insert(Z(9), VectorVar3::any("z"));
    (v, [X(4).into(), Y(0).into(), Z(9).into()], [1, 2, 3])
}
#[derive(Clone, Debug)]
struct Tri;
impl std::fmt::Display for Tri {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "r")
    }
}
#[factrs::mark]
impl Residual3 for Tri {
    type Differ = ForwardProp<Const<6>>;
    type V1 = VectorVar3;
    type V2 = VectorVar1;
    type V3 = VectorVar2;
    type DimIn = Const<6>;
    type DimOut = Const<2>;
    fn residual3<T: Numeric>(&self, a: VectorVar3<T>, b: VectorVar1<T>, c: VectorVar2<T>) -> VectorX<T> {
        VectorX::from_vec(vec![a.0[0] * b.0[0] + c.0[1] * T::from(3.0), a.0[2] + c.0[0] * a.0[1]])
    }
}
#[derive(Clone, Debug)]
struct Two;
impl std::fmt::Display for Two {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "r")
    }
}
#[factrs::mark]
impl Residual2 for Two {
    type Differ = ForwardProp<Const<3>>;
    type V1 = VectorVar2;
    type V2 = VectorVar1;
    type DimIn = Const<3>;
    type DimOut = Const<1>;
    fn residual2<T: Numeric>(&self, a: VectorVar2<T>, b: VectorVar1<T>) -> VectorX<T> {
        VectorX::from_vec(vec![a.0[0] * a.0[1] - b.0[0]])
    }
}
fn factor(k: usize) -> (Factor, Vec<usize>) {
    match k {
        0 => (fac![PriorResidual::new(VectorVar3::any("p")), (Z(9),), GaussianNoise::<3>::from_scalar_sigma(0.5)], vec![2]),
        1 => (fac![Tri, (Z(9), X(4), Y(0)), GaussianNoise::<2>::from_scalar_sigma(0.25), Cauchy::new(2.0)], vec![2, 0, 1]),
        2 => (fac![Two, (Y(0), X(4))], vec![1, 0]),
        _ => (fac![PriorResidual::new(VectorVar1::any("q")), (X(4),)], vec![0]),
    }
}
fn nonlinear(list: &[usize], perm: Option<&[usize; 3]>) {
    let (v, keys, dims) = scene();
    let mut g = if list.len() % 2 == 0 { Graph::new() } else { Graph::with_capacity(list.len()) };
    ieq("empty", g.is_empty() as u64, 1);
    let mut refs = vec![];
    let mut e = 0.0;
    for &k in list {
        let (f, vars) = factor(k);
        let l = f.linearize(&v);
        e += f.error(&v);
        refs.push(Ref { vars, a: l.a.mat().clone_owned(), b: l.b.iter().copied().collect() });
        g.add_factor(f);
    }
    ieq("len", g.len() as u64, list.len() as u64);
    ieq("not empty", g.is_empty() as u64, list.is_empty() as u64);
    eq("error", g.error(&v), e);
    let (ord, at) = match perm {
        Some(p) => order(&keys, &dims, p),
        None => {
            let o = ValuesOrder::from_values(&v);
            let at = keys.iter().map(|k| o.get(*k).unwrap().idx).collect();
            (o, at)
        }
    };
    let (m, b) = dense(&refs, &dims, &at, 6);
    // the pattern is computed from the nonlinear graph and used for its linearization
    let go = g.sparsity_pattern(ord.clone());
    compare(&g.linearize(&v).residual_jacobian(&go), &m, &b);
    // a pattern is reused for a later linearization of the same graph
    let mut w = Values::new();
    w.insert(X(4), VectorVar1::any("xx"));
    w.insert(Y(0), VectorVar2::any("yy"));
    w.insert(Z(9), VectorVar3::any("zz"));
    for (r, &k) in refs.iter_mut().zip(list) {
        let l = factor(k).0.linearize(&w);
        r.a = l.a.mat().clone_owned();
        r.b = l.b.iter().copied().collect();
    }
    let (m, b) = dense(&refs, &dims, &at, 6);
    compare(&g.linearize(&w).residual_jacobian(&go), &m, &b);
    // the pattern of the linearized graph is the same
    let lg = g.linearize(&w);
    compare(&lg.residual_jacobian(&lg.sparsity_pattern(ord)), &m, &b);
    mark("reached");
}

entries! {
    fn linear_chain() {
        seed(0);
        let p = PERM[choice("perm", 6)];
        shape(&[1, 2, 3], &[(&[0], 2), (&[0, 1], 1), (&[1, 2], 2), (&[2, 0], 3)], &p, true);
    }
    fn linear_wide() {
        seed(1);
        let p = PERM[choice("perm", 6)];
        shape(&[2, 1, 2], &[(&[2, 1, 0], 2), (&[1, 0, 2], 3), (&[1], 1)], &p, false);
    }
    /// the same key twice in one factor adds up
    fn linear_repeated() {
        seed(2);
        let p = PERM[choice("perm", 6)];
        shape(&[2, 1, 1], &[(&[0, 0], 2), (&[1, 0, 1], 1), (&[0, 0, 0], 1), (&[2], 1)], &p, false);
    }
    /// a variable without factors keeps its columns, all zero
    fn linear_unused() {
        seed(3);
        let p = PERM[choice("perm", 6)];
        shape(&[2, 3, 1], &[(&[0], 2), (&[0, 2], 1), (&[2], 2)], &p, true);
    }
    /// every insertion order of the same factors
    fn linear_insertion() {
        seed(4);
        let all: [(&[usize], usize); 3] = [(&[1, 0], 1), (&[2], 2), (&[2, 1], 3)];
        let p = PERM[choice("insert", 6)];
        shape(&[1, 2, 2], &[all[p[0]], all[p[1]], all[p[2]]], &PERM[choice("perm", 6)], false);
    }
    fn graph_all() {
        seed(5);
        let p = PERM[choice("perm", 6)];
        nonlinear(&[0, 1, 2, 3], Some(&p));
    }
    fn graph_insertion() {
        seed(6);
        let l = [[3, 2, 1, 0], [1, 0, 3, 2], [2, 2, 1, 0], [3, 1, 1, 2], [0, 3, 2, 1], [1, 3, 0, 0]][choice("insert", 6)];
        nonlinear(&l, Some(&PERM[3]));
    }
    /// the order the optimizers use, for several hash seeds
    fn graph_values_order() {
        seed(choice("seed", 8));
        nonlinear(&[2, 0, 1], None);
    }
    fn graph_small() {
        seed(8);
        let n = choice("n", 4);
        nonlinear(&[1, 0, 2][..n], Some(&PERM[4]));
    }
    /// poses
    fn graph_se2() {
        seed(9);
        let x = SE2::any("x");
        let z = SE2::any("z");
        let y = x.compose(&z).compose(&SE2::any("g"));
        let mut v = Values::new();
        v.insert(P(0), x.clone());
        v.insert(P(1), y.clone());
        let mk = || {
            let n = GaussianNoise::<3>::from_vec_sigma(Vector3::new(0.5, 2.0, 4.0).as_view());
            [fac![BetweenResidual::new(z.clone()), (P(1), P(0))], fac![PriorResidual::new(x.clone()), (P(0),), n]]
        };
        let mut g = Graph::new();
        let mut refs = vec![];
        let mut e = 0.0;
        for (f, vars) in mk().into_iter().zip([vec![1, 0], vec![0]]) {
            let l = f.linearize(&v);
            e += f.error(&v);
            refs.push(Ref { vars, a: l.a.mat().clone_owned(), b: l.b.iter().copied().collect() });
            g.add_factor(f);
        }
        eq("error", g.error(&v), e);
        let keys = [P(0).into(), P(1).into()];
        let perms = [[0, 1], [1, 0]];
        let (ord, at) = order(&keys, &[3, 3], &perms[choice("perm", 2)]);
        let (m, b) = dense(&refs, &[3, 3], &at, 6);
        let go = g.sparsity_pattern(ord);
        compare(&g.linearize(&v).residual_jacobian(&go), &m, &b);
        mark("reached");
    }
}
