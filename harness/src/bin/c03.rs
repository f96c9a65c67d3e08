//! exp is the matrix exponential of the group, for every tangent vector.
use factrs::linalg::*;
use nalgebra::DimName;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

fn vx(v: &[f64]) -> VectorX {
    VectorX::from_column_slice(v)
}

/// coefficients of the closed forms: sin t / t, (1 - cos t) / t^2, (t - sin t) / t^3
fn abc(t: f64) -> (f64, f64, f64) {
    (t.sin() / t, (1.0 - t.cos()) / (t * t), (t - t.sin()) / (t * t * t))
}

fn skew(r: &[f64]) -> Matrix3 {
    Matrix3::new(0.0, -r[2], r[1], r[2], 0.0, -r[0], -r[1], r[0], 0.0)
}

fn angle(r: &[f64]) -> f64 {
    let t2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
    assume(t2 > 0.0);
    t2.sqrt()
}

fn rodrigues(r: &[f64]) -> Matrix3 {
    let (a, b, _) = abc(angle(r));
    let k = skew(r);
    Matrix3::identity() + k * a + k * k * b
}

fn left_jac(r: &[f64]) -> Matrix3 {
    let (_, b, c) = abc(angle(r));
    let k = skew(r);
    Matrix3::identity() + k * b + k * k * c
}

fn cmp3(label: &str, a: &Matrix3, b: &Matrix3, tol: f64) {
    for i in 0..3 {
        for j in 0..3 {
            close_i(label, i * 3 + j, a[(i, j)], b[(i, j)], tol);
        }
    }
}

fn inv<V: Sym>(xi: &[f64]) {
    let n: Vec<f64> = xi.iter().map(|x| -x).collect();
    same("exp(-xi)=exp(xi)^-1", &V::exp(vx(&n).as_view()), &V::exp(vx(xi).as_view()).inverse());
}

fn zero<V: Sym>() {
    same("exp(0)=id", &V::exp(VectorX::zeros(V::DIM).as_view()), &V::identity());
    let l = V::identity().log();
    for i in 0..V::DIM {
        eq_i("log(id)=0", i, l[i], 0.0);
    }
}

/// the first order term of exp at 0 is hat
fn first<V: Sym + MatrixLieGroup>(cols: usize)
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<V::TangentDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::MatrixDim, V::MatrixDim>
        + nalgebra::allocator::Allocator<V::VectorDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::TangentDim, nalgebra::Const<1>>
        + nalgebra::allocator::Allocator<V::VectorDim, nalgebra::Const<1>>,
{
    let t = tau::<6>("tau");
    let m = V::exp(vx(&t[..V::DIM]).as_view()).to_matrix();
    for k in 0..V::DIM {
        // the generators, in (rotation, translation) order
        let mut g = vec![0.0; cols * cols];
        let d = cols;
        match (V::DIM, cols) {
            (1, 2) | (3, 3) if V::DIM == 1 || <V::VectorDim as DimName>::dim() == 2 => {
                if k == 0 {
                    g[1] = -1.0;
                    g[d] = 1.0;
                } else {
                    g[(k - 1) * d + 2] = 1.0;
                }
            }
            _ => {
                if k < 3 {
                    let (a, b) = ((k + 1) % 3, (k + 2) % 3);
                    g[a * d + b] = -1.0;
                    g[b * d + a] = 1.0;
                } else {
                    g[(k - 3) * d + 3] = 1.0;
                }
            }
        }
        for i in 0..cols {
            for j in 0..cols {
                deriv("generator", (k * 4 + i) * 4 + j, "tau", k, g[i * d + j], m[(i, j)]);
            }
        }
    }
}

fn se_rot(name: &str) -> [f64; 3] {
    any_n::<3>(name)
}

entries! {
    fn so2() {
        let t = any("th");
        let m = SO2::exp(vx(&[t]).as_view()).to_matrix();
        let (c, s) = (t.cos(), t.sin());
        eq("00", m[(0, 0)], c);
        eq("01", m[(0, 1)], -s);
        eq("10", m[(1, 0)], s);
        eq("11", m[(1, 1)], c);
        let q = SO2::from_theta(t).to_matrix();
        eq("from_theta_00", q[(0, 0)], c);
        eq("from_theta_01", q[(0, 1)], -s);
        eq("from_theta_10", q[(1, 0)], s);
        eq("from_theta_11", q[(1, 1)], c);
        inv::<SO2>(&[t]);
        mark("reached");
    }
    fn se2() {
        let t = any("th");
        let p = any_n::<2>("p");
        let m = SE2::exp(vx(&[t, p[0], p[1]]).as_view()).to_matrix();
        assume(t != 0.0);
        let (c, s) = (t.cos(), t.sin());
        let (a, b) = (s / t, (1.0 - c) / t);
        eq("00", m[(0, 0)], c);
        eq("01", m[(0, 1)], -s);
        eq("10", m[(1, 0)], s);
        eq("11", m[(1, 1)], c);
        let tol = 1e-8 * (1.0 + p[0] * p[0] + p[1] * p[1]);
        close("x", m[(0, 2)], a * p[0] - b * p[1], tol);
        close("y", m[(1, 2)], b * p[0] + a * p[1], tol);
        eq("20", m[(2, 0)], 0.0);
        eq("21", m[(2, 1)], 0.0);
        eq("22", m[(2, 2)], 1.0);
        mark("reached");
    }
    fn se2_inv() {
        let t = any("th");
        let p = any_n::<2>("p");
        let a = SE2::exp(vx(&[-t, -p[0], -p[1]]).as_view());
        let b = SE2::exp(vx(&[t, p[0], p[1]]).as_view()).inverse();
        let (x, y) = (a.parts(), b.parts());
        for i in 0..4 {
            close_i("exp(-xi)=exp(xi)^-1", i, x[i], y[i], 1e-8 * (1.0 + p[0] * p[0] + p[1] * p[1]));
        }
        mark("reached");
    }
    fn so3() {
        let r = any_n::<3>("r");
        let x = SO3::exp(vx(&r).as_view());
        cmp3("rodrigues", &x.to_matrix(), &rodrigues(&r), 1e-8);
        inv::<SO3>(&r);
        mark("reached");
    }
    fn so3_unit() {
        // stays on the group: the norm of the quaternion
        let r = any_n::<3>("r");
        let x = SO3::exp(vx(&r).as_view());
        let p = x.parts();
        close("unit", p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3], 1.0, 1e-12);
        mark("reached");
    }
    fn se3() {
        let r = se_rot("r");
        let p = any_n::<3>("p");
        let x = SE3::exp(vx(&[r[0], r[1], r[2], p[0], p[1], p[2]]).as_view());
        let m = x.to_matrix();
        cmp3("rodrigues", &m.fixed_view::<3, 3>(0, 0).into(), &rodrigues(&r), 1e-8);
        let t = left_jac(&r) * Vector3::new(p[0], p[1], p[2]);
        let tol = 1e-5 * (1.0 + p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
        for i in 0..3 {
            close_i("translation", i, m[(i, 3)], t[i], tol);
            eq_i("last row", i, m[(3, i)], 0.0);
        }
        eq("last", m[(3, 3)], 1.0);
        mark("reached");
    }
    fn zeros() {
        zero::<SO2>();
        zero::<SE2>();
        zero::<SO3>();
        zero::<SE3>();
        zero::<VectorVar3>();
        zero::<ImuBias>();
        mark("reached");
    }
    fn first_so2() { first::<SO2>(2); mark("reached"); }
    fn first_se2() { first::<SE2>(3); mark("reached"); }
    fn first_so3() { first::<SO3>(3); mark("reached"); }
    fn first_se3() { first::<SE3>(4); mark("reached"); }
}
