//! SO3::dexp is the right Jacobian of exp.
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;

fn dexp(r: [f64; 3], tol: f64) {
    let t = tau::<3>("tau");
    let v = Vector3::new(r[0], r[1], r[2]);
    let j = SO3::dexp(v.as_view());
    let m = SO3::exp(VectorX::from_column_slice(&r).as_view()).to_matrix();
    // d exp(r + tau) = exp(r) hat(dexp(r) tau)
    let p = SO3::exp(VectorX::from_column_slice(&[r[0] + t[0], r[1] + t[1], r[2] + t[2]]).as_view()).to_matrix();
    for k in 0..3 {
        let (a, b, c) = (j[(0, k)], j[(1, k)], j[(2, k)]);
        let h = Matrix3::new(0.0, -c, b, c, 0.0, -a, -b, a, 0.0);
        let w = m * h;
        for i in 0..3 {
            for l in 0..3 {
                deriv_close("dexp", (k * 3 + i) * 3 + l, "tau", k, w[(i, l)], p[(i, l)], tol);
            }
        }
    }
    mark("reached");
}

entries! {
    fn dexp_any() {
        let r = any_n::<3>("r");
        dexp(r, 2e-6);
    }
    fn closed_form() {
        let r = any_n::<3>("r");
        let t2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
        assume(t2 > 0.0);
        let t = t2.sqrt();
        let k = Matrix3::new(0.0, -r[2], r[1], r[2], 0.0, -r[0], -r[1], r[0], 0.0);
        let w = Matrix3::identity() - k * ((1.0 - t.cos()) / t2) + k * k * ((t - t.sin()) / (t2 * t));
        let j = SO3::dexp(Vector3::new(r[0], r[1], r[2]).as_view());
        for i in 0..3 {
            for l in 0..3 {
                close_i("right Jacobian", i * 3 + l, j[(i, l)], w[(i, l)], 1e-8);
            }
        }
        mark("reached");
    }
    fn zero() {
        let j = SO3::dexp(Vector3::zeros().as_view());
        for i in 0..3 {
            for l in 0..3 {
                eq_i("dexp(0)=I", i * 3 + l, j[(i, l)], if i == l { 1.0 } else { 0.0 });
            }
        }
        mark("reached");
    }
    fn inverse() {
        // dexp(r) r = r: the direction of the axis is kept
        let r = any_n::<3>("r");
        let v = Vector3::new(r[0], r[1], r[2]);
        let w = SO3::dexp(v.as_view()) * v;
        for i in 0..3 {
            eq_i("axis", i, w[i], r[i]);
        }
        mark("reached");
    }
}
