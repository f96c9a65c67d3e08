//! Noise models: |whiten(v)|^2 = v^T Information v, matrices are whitened column by column.
use factrs::linalg::*;
use factrs::noise::*;
use harness::*;

/// whitens v and a two-column matrix that has v as its second column
fn quad<const N: usize>(noise: &impl NoiseModel, v: &[f64; N], want: f64) {
    let w = noise.whiten_vec(VectorX::from_column_slice(v));
    ieq("len", w.len() as u64, N as u64);
    ieq("dim", noise.dim() as u64, N as u64);
    let mut q = 0.0;
    for i in 0..N {
        q += w[i] * w[i];
    }
    eq("quadratic form", q, want);
    let u = any_n::<N>("u");
    let wu = noise.whiten_vec(VectorX::from_column_slice(&u));
    let m = MatrixX::from_fn(N, 3, |i, j| if j == 0 { u[i] } else if j == 1 { v[i] } else { 2.0 * u[i] - v[i] });
    let wm = noise.whiten_mat(m);
    ieq("mat rows", wm.nrows() as u64, N as u64);
    ieq("mat cols", wm.ncols() as u64, 3);
    for i in 0..N {
        eq_i("mat col 0", i, wm[(i, 0)], wu[i]);
        eq_i("mat col 1", i, wm[(i, 1)], w[i]);
        eq_i("mat col 2", i, wm[(i, 2)], 2.0 * wu[i] - w[i]);
    }
}
fn pos_n<const N: usize>(name: &str) -> [f64; N] {
    let s = any_n::<N>(name);
    for x in s {
        assume(x > 0.0);
    }
    s
}
fn vec<const N: usize>(s: &[f64; N]) -> Vector<N> {
    let mut v = Vector::<N>::zeros();
    for i in 0..N {
        v[i] = s[i];
    }
    v
}

fn scalar<const N: usize>() {
    let s = any("s");
    assume(s > 0.0);
    let v = any_n::<N>("v");
    let n2: f64 = v.iter().map(|x| x * x).sum();
    quad(&GaussianNoise::<N>::from_scalar_sigma(s), &v, n2 / (s * s));
    quad(&GaussianNoise::<N>::from_scalar_cov(s), &v, n2 / s);
    quad(&UnitNoise::<N>, &v, n2);
    quad(&GaussianNoise::<N>::identity(), &v, n2);
    let w = UnitNoise::<N>.whiten_vec(VectorX::from_column_slice(&v));
    for i in 0..N {
        eq_i("unit", i, w[i], v[i]);
    }
}
fn diag<const N: usize>() {
    let s = pos_n::<N>("s");
    let v = any_n::<N>("v");
    let sig: f64 = (0..N).map(|i| v[i] * v[i] / (s[i] * s[i])).sum();
    let cov: f64 = (0..N).map(|i| v[i] * v[i] / s[i]).sum();
    let inf: f64 = (0..N).map(|i| v[i] * v[i] * s[i]).sum();
    quad(&GaussianNoise::<N>::from_vec_sigma(vec(&s).as_view()), &v, sig);
    quad(&GaussianNoise::<N>::from_vec_cov(vec(&s).as_view()), &v, cov);
    quad(&GaussianNoise::<N>::from_vec_inf(vec(&s).as_view()), &v, inf);
    // each axis keeps its own scale
    for (noise, f) in [
        (GaussianNoise::<N>::from_vec_sigma(vec(&s).as_view()), (|x: f64| 1.0 / (x * x)) as fn(f64) -> f64),
        (GaussianNoise::<N>::from_vec_cov(vec(&s).as_view()), |x: f64| 1.0 / x),
        (GaussianNoise::<N>::from_vec_inf(vec(&s).as_view()), |x: f64| x),
    ] {
        let w = noise.whiten_vec(VectorX::from_column_slice(&v));
        for i in 0..N {
            eq_i("axis", i, w[i] * w[i], v[i] * v[i] * f(s[i]));
        }
    }
}
macro_rules! listed {
    ($name:ident, $n:literal, $($i:literal),*) => {
        fn $name() {
            let s = pos_n::<$n>("s");
            let v = any_n::<$n>("v");
            let sig: f64 = (0..$n).map(|i| v[i] * v[i] / (s[i] * s[i])).sum();
            let cov: f64 = (0..$n).map(|i| v[i] * v[i] / s[i]).sum();
            quad(&GaussianNoise::<$n>::from_diag_sigmas($(s[$i]),*), &v, sig);
            quad(&GaussianNoise::<$n>::from_diag_covs($(s[$i]),*), &v, cov);
        }
    };
}
listed!(list1, 1, 0);
listed!(list2, 2, 0, 1);
listed!(list3, 3, 0, 1, 2);
listed!(list4, 4, 0, 1, 2, 3);
listed!(list5, 5, 0, 1, 2, 3, 4);
listed!(list6, 6, 0, 1, 2, 3, 4, 5);

/// every positive definite matrix is L*L^T
fn spd<const N: usize>() -> [[f64; N]; N] {
    let mut l = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..i {
            l[i][j] = any_i("l", i * N + j);
        }
        l[i][i] = any_i("ld", i);
        assume(l[i][i] > 0.0);
    }
    let mut m = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            for k in 0..N {
                if k <= i && k <= j {
                    m[i][j] += l[i][k] * l[j][k];
                }
            }
        }
    }
    m
}
fn matrix_inf<const N: usize>() {
    let m = spd::<N>();
    let v = any_n::<N>("v");
    let mat = Matrix::<N, N>::from_fn(|i, j| m[i][j]);
    let noise = GaussianNoise::<N>::from_matrix_inf(mat.as_view());
    let mut want = 0.0;
    for i in 0..N {
        for j in 0..N {
            want += v[i] * m[i][j] * v[j];
        }
    }
    quad(&noise, &v, want);
}
fn matrix_cov<const N: usize>() {
    // the information, its inverse is handed over as covariance: v = Cov u, so v^T Cov^-1 v = u^T Cov u
    let m = spd::<N>();
    let u = any_n::<N>("y");
    let mat = Matrix::<N, N>::from_fn(|i, j| m[i][j]);
    let noise = GaussianNoise::<N>::from_matrix_cov(mat.as_view());
    let mut v = [0.0; N];
    let mut want = 0.0;
    for i in 0..N {
        for j in 0..N {
            v[i] += m[i][j] * u[j];
        }
    }
    for i in 0..N {
        want += u[i] * v[i];
    }
    quad(&noise, &v, want);
}
/// N = 5, 6 are inverted with pivoting: a dominant diagonal and one coupling
fn matrix_cov_big<const N: usize>(a: usize, b: usize) {
    let s = any_n_in::<N>("s", 2.0, 3.0);
    let c = any_in("c", -1.0, 1.0);
    let mut mat = Matrix::<N, N>::zeros();
    for i in 0..N {
        mat[(i, i)] = s[i];
    }
    mat[(a, b)] = c;
    mat[(b, a)] = c;
    let noise = GaussianNoise::<N>::from_matrix_cov(mat.as_view());
    let v = any_n::<N>("v");
    let mut want = 0.0;
    for i in 0..N {
        if i != a && i != b {
            want += v[i] * v[i] / s[i];
        }
    }
    want += (v[a] * v[a] * s[b] - 2.0 * v[a] * v[b] * c + v[b] * v[b] * s[a]) / (s[a] * s[b] - c * c);
    quad(&noise, &v, want);
}

entries! {
    fn scalar_all() { scalar::<1>(); scalar::<2>(); scalar::<3>(); scalar::<4>(); scalar::<5>(); scalar::<6>(); mark("reached"); }
    fn diag_1() { diag::<1>(); list1(); mark("reached"); }
    fn diag_2() { diag::<2>(); list2(); mark("reached"); }
    fn diag_3() { diag::<3>(); list3(); mark("reached"); }
    fn diag_4() { diag::<4>(); list4(); mark("reached"); }
    fn diag_5() { diag::<5>(); list5(); mark("reached"); }
    fn diag_6() { diag::<6>(); list6(); mark("reached"); }
    fn inf_1() { matrix_inf::<1>(); mark("reached"); }
    fn inf_2() { matrix_inf::<2>(); mark("reached"); }
    fn inf_3() { matrix_inf::<3>(); mark("reached"); }
    fn inf_4() { matrix_inf::<4>(); mark("reached"); }
    fn inf_5() { matrix_inf::<5>(); mark("reached"); }
    fn inf_6() { matrix_inf::<6>(); mark("reached"); }
    fn cov_1() { matrix_cov::<1>(); mark("reached"); }
    fn cov_2() { matrix_cov::<2>(); mark("reached"); }
    fn cov_3() { matrix_cov::<3>(); mark("reached"); }
    fn cov_4() { matrix_cov::<4>(); mark("reached"); }
    fn cov_5() { matrix_cov_big::<5>(0, 3); mark("reached"); }
    fn cov_6a() { matrix_cov_big::<6>(1, 2); mark("reached"); }
    fn cov_6b() { matrix_cov_big::<6>(0, 5); mark("reached"); }
}
