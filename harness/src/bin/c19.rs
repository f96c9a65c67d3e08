//! Linear solvers: the returned vector satisfies the (normal) equations.
use factrs::linear::*;
use faer::sparse::SparseColMat;
use faer::Mat;
use harness::*;

type T = (usize, usize);
fn sparse(m: usize, n: usize, at: &[T], val: &dyn Fn(usize, usize) -> f64) -> SparseColMat<usize, f64> {
    let t: Vec<(usize, usize, f64)> = at.iter().map(|&(i, j)| (i, j, val(i, j))).collect();
    SparseColMat::try_new_from_triplets(m, n, &t).unwrap()
}
/// lower triangular factor with positive diagonal: every positive definite matrix with this pattern
fn factor(name: &str, n: usize, at: &[T]) -> Vec<Vec<f64>> {
    let mut l = vec![vec![0.0; n]; n];
    for &(i, j) in at {
        l[i][j] = if i == j { any_i_in(name, i * n + j, 0.0, 1e9) } else { any_i(name, i * n + j) };
    }
    l
}
fn spd(name: &str, n: usize, at: &[T]) -> Vec<Vec<f64>> {
    let l = factor(name, n, at);
    let mut h = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            for k in 0..=i.min(j) {
                h[i][j] += l[i][k] * l[j][k];
            }
            cut("h", i * n + j, h[i][j]);
        }
    }
    h
}
fn rhs(name: &str, n: usize) -> Mat<f64> {
    let v: Vec<f64> = (0..n).map(|i| any_i(name, i)).collect();
    Mat::from_fn(n, 1, |i, _| v[i])
}
fn sym<S: LinearSolver>(label: &str, s: &mut S, name: &str, n: usize, low: &[T]) {
    let h = spd(name, n, low);
    let mut at = low.to_vec();
    at.extend(low.iter().filter(|(i, j)| i != j).map(|&(i, j)| (j, i)));
    let a = sparse(n, n, &at, &|i, j| h[i][j]);
    let b = rhs(&{ let mut t = String::from("b"); t.push_str(name); t }, n);
    let x = s.solve_symmetric(a.as_ref(), b.as_ref());
    ieq("rows", x.nrows() as u64, n as u64);
    ieq("cols", x.ncols() as u64, 1);
    for i in 0..n {
        let mut e = 0.0;
        for j in 0..n {
            e += h[i][j] * x.read(j, 0);
        }
        eq_i(label, i, e, b.read(i, 0));
    }
}
fn lsq<S: LinearSolver>(label: &str, s: &mut S, name: &str, m: usize, n: usize, at: &[T]) {
    let mut v = vec![vec![0.0; n]; m];
    for &(i, j) in at {
        v[i][j] = any_i(name, i * n + j);
    }
    // full column rank: all leading minors of A^T A are positive
    let g = |i: usize, j: usize| (0..m).fold(0.0, |s, k| s + v[k][i] * v[k][j]);
    assume(g(0, 0) > 0.0);
    if n > 1 {
        assume(g(1, 1) > 0.0);
        assume(g(0, 0) * g(1, 1) - g(0, 1) * g(0, 1) > 0.0);
    }
    if n > 2 {
        assume(g(2, 2) > 0.0);
        assume(g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(1, 2)) - g(0, 1) * (g(0, 1) * g(2, 2) - g(1, 2) * g(0, 2)) + g(0, 2) * (g(0, 1) * g(1, 2) - g(1, 1) * g(0, 2)) > 0.0);
    }
    let a = sparse(m, n, at, &|i, j| v[i][j]);
    let b = rhs(&{ let mut t = String::from("b"); t.push_str(name); t }, m);
    let x = s.solve_lst_sq(a.as_ref(), b.as_ref());
    ieq("rows", x.nrows() as u64, n as u64);
    // normal equations: A^T (A x - b) = 0
    let r: Vec<f64> = (0..m).map(|i| (0..n).fold(-b.read(i, 0), |s, j| s + v[i][j] * x.read(j, 0))).collect();
    for j in 0..n {
        let mut e = 0.0;
        for i in 0..m {
            e += v[i][j] * r[i];
        }
        eq_i(label, j, e, 0.0);
    }
}
const D1: &[T] = &[(0, 0)];
const D2: &[T] = &[(0, 0), (1, 1)];
const F2: &[T] = &[(0, 0), (1, 0), (1, 1)];
const F3: &[T] = &[(0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (2, 2)];
const F4: &[T] = &[(0, 0), (1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (3, 3)];
const CHAIN3: &[T] = &[(0, 0), (1, 0), (1, 1), (2, 1), (2, 2)];
const CHAIN4: &[T] = &[(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3)];
const CHAIN5: &[T] = &[(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (4, 4)];
/// every variable coupled to the last one
const STAR4: &[T] = &[(0, 0), (1, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3)];
const A21: &[T] = &[(0, 0), (1, 0)];
const A22: &[T] = &[(0, 0), (1, 0), (1, 1)];
const A32: &[T] = &[(0, 0), (1, 0), (1, 1), (2, 1)];
const A32F: &[T] = &[(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)];
const A42: &[T] = &[(0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (3, 1)];
const A43: &[T] = &[(0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2)];

macro_rules! one {
    ($f:ident, $S:ident, $($a:expr),*) => {{
        $f("solves", &mut $S::default(), $($a),*);
        mark("reached");
    }};
}
/// the same solver again, on other numbers of the same pattern
macro_rules! two {
    ($f:ident, $S:ident, $($a:expr),*) => {{
        let mut s = $S::default();
        $f("first", &mut s, "l", $($a),*);
        $f("again", &mut s, "m", $($a),*);
        mark("reached");
    }};
}

entries! {
    fn chol1() { one!(sym, CholeskySolver, "l", 1, D1) }
    fn chol_diag() { one!(sym, CholeskySolver, "l", 2, D2) }
    fn chol2() { one!(sym, CholeskySolver, "l", 2, F2) }
    fn chol3() { one!(sym, CholeskySolver, "l", 3, F3) }
    fn chol4() { one!(sym, CholeskySolver, "l", 4, F4) }
    fn chol_chain3() { one!(sym, CholeskySolver, "l", 3, CHAIN3) }
    fn chol_chain4() { one!(sym, CholeskySolver, "l", 4, CHAIN4) }
    fn chol_chain5() { one!(sym, CholeskySolver, "l", 5, CHAIN5) }
    fn chol_star4() { one!(sym, CholeskySolver, "l", 4, STAR4) }
    fn chol_lsq21() { one!(lsq, CholeskySolver, "a", 2, 1, A21) }
    fn chol_lsq32() { one!(lsq, CholeskySolver, "a", 3, 2, A32) }
    fn chol_lsq32f() { one!(lsq, CholeskySolver, "a", 3, 2, A32F) }
    fn chol_lsq42() { one!(lsq, CholeskySolver, "a", 4, 2, A42) }
    fn chol_lsq43() { one!(lsq, CholeskySolver, "a", 4, 3, A43) }
    fn chol_again2() { two!(sym, CholeskySolver, 2, F2) }
    fn chol_again3() { two!(sym, CholeskySolver, 3, CHAIN3) }
    fn chol_lsq_again() { two!(lsq, CholeskySolver, 3, 2, A32) }
    fn lu1() { one!(sym, LUSolver, "l", 1, D1) }
    fn lu2() { one!(sym, LUSolver, "l", 2, F2) }
    fn lu_chain3() { one!(sym, LUSolver, "l", 3, CHAIN3) }
    fn t_lu3() { one!(sym, LUSolver, "l", 3, F3) }
    fn lu_lsq21() { one!(lsq, LUSolver, "a", 2, 1, A21) }
    fn lu_lsq32() { one!(lsq, LUSolver, "a", 3, 2, A32) }
    fn chol_again_diag() { two!(sym, CholeskySolver, 2, D2) }
    fn lu_again_diag() { two!(sym, LUSolver, 2, D2) }
    fn qr_again_diag() { two!(sym, QRSolver, 2, D2) }
    fn lu_again1() { two!(sym, LUSolver, 1, D1) }
    fn t_lu_again2() { two!(sym, LUSolver, 2, F2) }
    fn qr1() { one!(sym, QRSolver, "l", 1, D1) }
    fn qr2() { one!(sym, QRSolver, "l", 2, F2) }
    fn qr_lsq21() { one!(lsq, QRSolver, "a", 2, 1, A21) }
    fn qr_lsq22() { one!(lsq, QRSolver, "a", 2, 2, A22) }
    fn qr_again1() { two!(sym, QRSolver, 1, D1) }
}
