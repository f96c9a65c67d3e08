//! Graphs for the optimizers and a solver whose answers depend on the whole system it is given.
#![allow(dead_code, static_mut_refs)]
use crate::lie::*;
use factrs::containers::*;
use factrs::linalg::*;
use factrs::linear::*;
use factrs::noise::*;
use factrs::residuals::*;
use factrs::traits::*;
use factrs::variables::*;
use faer::sparse::SparseColMatRef;
use faer::{Mat, MatRef};
use harness::*;

pub static mut CALLS: usize = 0;
/// x = s b + t A b with arbitrary s, t for every call: equivariant under any column order
#[derive(Default)]
pub struct Krylov;
pub fn coef(call: usize) -> (f64, f64) {
    (any_i("s", call), any_i("t", call))
}
fn mul(a: SparseColMatRef<usize, f64>, x: &[f64]) -> Vec<f64> {
    let mut y = vec![0.0; a.nrows()];
    for j in 0..a.ncols() {
        for (i, v) in a.row_indices_of_col(j).zip(a.values_of_col(j)) {
            y[i] += v * x[j];
        }
    }
    y
}
fn tmul(a: SparseColMatRef<usize, f64>, x: &[f64]) -> Vec<f64> {
    let mut y = vec![0.0; a.ncols()];
    for j in 0..a.ncols() {
        for (i, v) in a.row_indices_of_col(j).zip(a.values_of_col(j)) {
            y[j] += v * x[i];
        }
    }
    y
}
fn combine(g: &[f64], h: &[f64]) -> Mat<f64> {
    let k = unsafe {
        CALLS += 1;
        CALLS - 1
    };
    let (s, t) = coef(k);
    Mat::from_fn(g.len(), 1, |i, _| s * g[i] + t * h[i])
}
impl LinearSolver for Krylov {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let g: Vec<f64> = (0..b.nrows()).map(|i| b.read(i, 0)).collect();
        let h = mul(a, &g);
        combine(&g, &h)
    }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let v: Vec<f64> = (0..b.nrows()).map(|i| b.read(i, 0)).collect();
        let g = tmul(a, &v);
        let h = tmul(a, &mul(a, &g));
        combine(&g, &h)
    }
}

/// dense normal equations of a linearized graph, with the blocks in the order of `keys`
pub struct Normal {
    pub keys: Vec<Key>,
    pub at: Vec<usize>,
    pub n: usize,
    pub a: MatrixX,
    pub b: VectorX,
    pub h: MatrixX,
    pub g: VectorX,
}
pub fn normal(graph: &Graph, values: &Values, keys: &[Key], dims: &[usize]) -> Normal {
    let mut at = vec![];
    let mut n = 0;
    let mut map = ahash::HashMap::default();
    for (k, d) in keys.iter().zip(dims) {
        at.push(n);
        map.insert(*k, Idx { idx: n, dim: *d });
        n += d;
    }
    let order = graph.sparsity_pattern(ValuesOrder::new(map));
    let d = graph.linearize(values).residual_jacobian(&order);
    let m = d.value.nrows();
    let mut a = MatrixX::zeros(m, n);
    let j = d.diff.as_ref();
    for c in 0..n {
        for (r, v) in j.row_indices_of_col(c).zip(j.values_of_col(c)) {
            a[(r, c)] += *v;
        }
    }
    let b = VectorX::from_fn(m, |i, _| d.value.read(i, 0));
    let mut h = MatrixX::zeros(n, n);
    let mut g = VectorX::zeros(n);
    for i in 0..n {
        for k in 0..m {
            g[i] += a[(k, i)] * b[k];
            for j in 0..n {
                h[(i, j)] += a[(k, i)] * a[(k, j)];
            }
        }
    }
    Normal { keys: keys.to_vec(), at, n, a, b, h, g }
}
impl Normal {
    /// half the squared norm of A x - b
    pub fn error(&self, x: &[f64]) -> f64 {
        let mut e = 0.0;
        for i in 0..self.b.len() {
            let mut r = -self.b[i];
            for j in 0..self.n {
                r += self.a[(i, j)] * x[j];
            }
            e += r * r;
        }
        e / 2.0
    }
    /// s g + t (H + lambda D) g
    pub fn krylov(&self, s: f64, t: f64, lambda: f64, diagonal: bool) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let mut y = 0.0;
                for j in 0..self.n {
                    y += self.h[(i, j)] * self.g[j];
                }
                let d = if diagonal { self.h[(i, i)] } else { 1.0 };
                s * self.g[i] + t * (y + lambda * d * self.g[i])
            })
            .collect()
    }
}
pub fn at<V: VariableUmbrella + Clone>(v: &Values, k: Key) -> V {
    let x: &V = v.get_unchecked(k).unwrap();
    x.clone()
}
/// the variable moved by its block
pub fn moved<V: Sym + VariableUmbrella>(label: &str, new: &Values, old: &Values, k: Key, d: &[f64]) {
    let want = at::<V>(old, k).oplus(VectorX::from_column_slice(&d[..V::DIM]).as_view());
    same(label, &at::<V>(new, k), &want);
}
/// positive noise weight
pub fn sigma<const N: usize>(name: &str) -> GaussianNoise<N> {
    GaussianNoise::from_scalar_sigma(any_in(name, 0.0, 1e6))
}
