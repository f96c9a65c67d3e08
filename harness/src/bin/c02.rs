//! exp and log are inverse to each other.
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;
use std::f64::consts::PI;

fn sq(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum()
}

/// exp(log x) is the same transformation as x
fn explog<V: Sym + MatrixLieGroup>(tol: impl Fn(&V) -> f64)
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<V::TangentDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::MatrixDim, V::MatrixDim>
        + nalgebra::allocator::Allocator<V::VectorDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::TangentDim, nalgebra::Const<1>>
        + nalgebra::allocator::Allocator<V::VectorDim, nalgebra::Const<1>>,
{
    let x = V::any("x");
    let l = x.log();
    let y = V::exp(l.as_view());
    let (a, b) = (x.to_matrix(), y.to_matrix());
    let n = a.nrows();
    let t = tol(&x);
    for i in 0..n {
        for j in 0..n {
            close_i("explog", i * n + j, b[(i, j)], a[(i, j)], t);
        }
    }
    mark("reached");
}

fn logexp<V: Sym>(xi: &[f64], tol: f64) {
    let v = VectorX::from_column_slice(xi);
    let l = V::exp(v.as_view()).log();
    for i in 0..xi.len() {
        close_i("logexp", i, l[i], xi[i], tol);
    }
    mark("reached");
}

fn vector<V: Sym>() {
    let x = V::any("x");
    let l = x.log();
    same("explog", &V::exp(l.as_view()), &x);
    let mut xi = VectorX::zeros(V::DIM);
    for i in 0..V::DIM {
        xi[i] = any_i("xi", i);
    }
    let m = V::exp(xi.as_view()).log();
    ieq("dim", m.len() as u64, V::DIM as u64);
    for i in 0..V::DIM {
        eq_i("logexp", i, m[i], xi[i]);
    }
    mark("reached");
}

entries! {
    fn explog_so2() { explog::<SO2>(|_| 1e-9) }
    fn explog_se2() { explog::<SE2>(|x| 1e-6 * (1.0 + x.x() * x.x() + x.y() * x.y())) }
    fn explog_so3() { explog::<SO3>(|_| 1e-6) }
    fn explog_se3() { explog::<SE3>(|x| { let t = x.xyz(); 1e-5 * (1.0 + t[0] * t[0] + t[1] * t[1] + t[2] * t[2]) }) }
    fn logexp_so2() { let th = any_in("th", -PI, PI); logexp::<SO2>(&[th], 1e-9) }
    fn logexp_se2() { let th = any_in("th", -PI, PI); let t = any_n::<2>("t"); logexp::<SE2>(&[th, t[0], t[1]], 1e-6 * (1.0 + sq(&t))) }
    fn logexp_so3() { let r = any_n_in::<3>("r", -PI, PI); assume(sq(&r) < PI * PI); logexp::<SO3>(&r, 1e-6) }
    fn logexp_se3() {
        let r = any_n_in::<3>("r", -PI, PI);
        let t = any_n::<3>("t");
        assume(sq(&r) < PI * PI);
        logexp::<SE3>(&[r[0], r[1], r[2], t[0], t[1], t[2]], 1e-5 * (1.0 + sq(&t)))
    }
    fn vec1() { vector::<VectorVar1>() }
    fn vec2() { vector::<VectorVar2>() }
    fn vec3() { vector::<VectorVar3>() }
    fn vec4() { vector::<VectorVar4>() }
    fn vec5() { vector::<VectorVar5>() }
    fn vec6() { vector::<VectorVar6>() }
    fn imubias() { vector::<ImuBias>() }
}
