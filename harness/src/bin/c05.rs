//! The matrix representation: to_matrix, from_matrix, apply, hat, vee, hat_swap, adjoint.
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

macro_rules! group {
    ($hom:ident, $frm:ident, $app:ident, $hat:ident, $adj:ident, $V:ty, $dim:literal, $mat:literal, $vec:literal) => {
        fn $hom() {
            let x = <$V>::any("x");
            let y = <$V>::any("y");
            let (mx, my) = (x.to_matrix(), y.to_matrix());
            let p = x.compose(&y).to_matrix();
            let q = (x.clone() * y.clone()).to_matrix();
            let id = <$V>::identity().to_matrix();
            let inv = x.inverse().to_matrix();
            for i in 0..$mat {
                for j in 0..$mat {
                    let mut s = 0.0;
                    let mut e = 0.0;
                    let mut o = 0.0;
                    for k in 0..$mat {
                        s += mx[(i, k)] * my[(k, j)];
                        e += mx[(i, k)] * inv[(k, j)];
                    }
                    for k in 0..$vec {
                        o += mx[(k, i)] * mx[(k, j)];
                    }
                    let d = if i == j { 1.0 } else { 0.0 };
                    eq_i("product", i * 4 + j, p[(i, j)], s);
                    eq_i("operator", i * 4 + j, q[(i, j)], s);
                    eq_i("identity", i * 4 + j, id[(i, j)], d);
                    eq_i("inverse", i * 4 + j, e, d);
                    if i < $vec && j < $vec {
                        eq_i("orthonormal", i * 4 + j, o, d);
                    }
                    if i == $vec {
                        eq_i("last row", j, mx[(i, j)], d);
                    }
                }
            }
            if $vec == 2 {
                eq("det", mx[(0, 0)] * mx[(1, 1)] - mx[(0, 1)] * mx[(1, 0)], 1.0);
            } else {
                let c = |i: usize, j: usize| mx[(i, j)];
                eq("det", c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0)) + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0)), 1.0);
            }
            mark("reached");
        }
        fn $frm() {
            let x = <$V>::any("x");
            let m = x.to_matrix();
            let z = <$V>::from_matrix(m.as_view());
            let n = z.to_matrix();
            for i in 0..$mat {
                for j in 0..$mat {
                    eq_i("from_matrix", i * 4 + j, n[(i, j)], m[(i, j)]);
                }
            }
            <$V>::closed("unit", &z);
            mark("reached");
        }
        fn $app() {
            let x = <$V>::any("x");
            let y = <$V>::any("y");
            let v = any_n::<$vec>("v");
            let mut vv = nalgebra::SVector::<f64, $vec>::zeros();
            for i in 0..$vec {
                vv[i] = v[i];
            }
            let m = x.to_matrix();
            let a = x.apply(vv.as_view());
            for i in 0..$vec {
                let mut s = if $mat > $vec { m[(i, $mat - 1)] } else { 0.0 };
                for j in 0..$vec {
                    s += m[(i, j)] * v[j];
                }
                eq_i("apply", i, a[i], s);
            }
            // the action is a group action
            let b = y.apply(a.as_view());
            let c = y.compose(&x).apply(vv.as_view());
            let d = x.inverse().apply(a.as_view());
            for i in 0..$vec {
                eq_i("action", i, c[i], b[i]);
                eq_i("inverse action", i, d[i], v[i]);
            }
            mark("reached");
        }
        fn $hat() {
            let xi = any_n::<$dim>("xi");
            let v = any_n::<$vec>("v");
            let mut x = nalgebra::SVector::<f64, $dim>::zeros();
            for i in 0..$dim {
                x[i] = xi[i];
            }
            let mut vv = nalgebra::SVector::<f64, $vec>::zeros();
            for i in 0..$vec {
                vv[i] = v[i];
            }
            let h = <$V>::hat(x.as_view());
            let back = <$V>::vee(h.as_view());
            for i in 0..$dim {
                eq_i("vee(hat)", i, back[i], xi[i]);
            }
            // the generators
            let mut g = nalgebra::SMatrix::<f64, $mat, $mat>::zeros();
            if $vec == 2 {
                g[(1, 0)] = xi[0];
                g[(0, 1)] = -xi[0];
            } else {
                g[(2, 1)] = xi[0];
                g[(1, 2)] = -xi[0];
                g[(0, 2)] = xi[1];
                g[(2, 0)] = -xi[1];
                g[(1, 0)] = xi[2];
                g[(0, 1)] = -xi[2];
            }
            if $mat > $vec {
                for i in 0..$vec {
                    g[(i, $mat - 1)] = xi[$dim - $vec + i];
                }
            }
            for i in 0..$mat {
                for j in 0..$mat {
                    eq_i("hat", i * 4 + j, h[(i, j)], g[(i, j)]);
                }
            }
            // hat(xi) v = hat_swap(v) xi
            let w = <$V>::hat_swap(vv.as_view());
            for i in 0..$vec {
                let mut s = if $mat > $vec { g[(i, $mat - 1)] } else { 0.0 };
                let mut t = 0.0;
                for j in 0..$vec {
                    s += g[(i, j)] * v[j];
                }
                for j in 0..$dim {
                    t += w[(i, j)] * xi[j];
                }
                eq_i("hat_swap", i, t, s);
            }
            mark("reached");
        }
        fn $adj() {
            let x = <$V>::any("x");
            let xi = any_n::<$dim>("xi");
            let mut v = nalgebra::SVector::<f64, $dim>::zeros();
            for i in 0..$dim {
                v[i] = xi[i];
            }
            let ad = x.adjoint();
            let mut a = nalgebra::SVector::<f64, $dim>::zeros();
            for i in 0..$dim {
                for j in 0..$dim {
                    a[i] += ad[(i, j)] * xi[j];
                }
            }
            // x hat(xi) x^-1 = hat(Ad xi)
            let l = x.to_matrix() * <$V>::hat(v.as_view()) * x.inverse().to_matrix();
            let r = <$V>::hat(a.as_view());
            for i in 0..$mat {
                for j in 0..$mat {
                    eq_i("adjoint", i * 4 + j, r[(i, j)], l[(i, j)]);
                }
            }
            mark("reached");
        }
    };
}

group!(so2_hom, so2_from, so2_apply, so2_hat, so2_adj, SO2, 1, 2, 2);
group!(se2_hom, se2_from, se2_apply, se2_hat, se2_adj, SE2, 3, 3, 2);
group!(so3_hom, so3_from, so3_apply, so3_hat, so3_adj, SO3, 3, 3, 3);
group!(se3_hom, se3_from, se3_apply, se3_hat, se3_adj, SE3, 6, 4, 3);

entries! {
    fn hom_so2() { so2_hom() }
    fn hom_se2() { se2_hom() }
    fn hom_so3() { so3_hom() }
    fn hom_se3() { se3_hom() }
    fn from_so2() { so2_from() }
    fn from_se2() { se2_from() }
    fn from_so3() { so3_from() }
    fn from_se3() { se3_from() }
    fn apply_so2() { so2_apply() }
    fn apply_se2() { se2_apply() }
    fn apply_so3() { so3_apply() }
    fn apply_se3() { se3_apply() }
    fn hat_so2() { so2_hat() }
    fn hat_se2() { se2_hat() }
    fn hat_so3() { so3_hat() }
    fn hat_se3() { se3_hat() }
    fn adj_so2() { so2_adj() }
    fn adj_se2() { se2_adj() }
    fn adj_so3() { so3_adj() }
    fn adj_se3() { se3_adj() }
    fn access() {
        // constructors and accessors agree with the matrix
        let t = any("th");
        let p = any_n::<3>("p");
        let m = SE2::new(t, p[0], p[1]).to_matrix();
        eq("SE2::new 00", m[(0, 0)], t.cos());
        eq("SE2::new 10", m[(1, 0)], t.sin());
        eq("SE2::new x", m[(0, 2)], p[0]);
        eq("SE2::new y", m[(1, 2)], p[1]);
        let x = SE2::any("x");
        let m = x.to_matrix();
        eq("SE2 x", x.x(), m[(0, 2)]);
        eq("SE2 y", x.y(), m[(1, 2)]);
        eq("SE2 xy 0", x.xy()[0], m[(0, 2)]);
        eq("SE2 xy 1", x.xy()[1], m[(1, 2)]);
        eq("SE2 theta cos", x.theta().cos(), m[(0, 0)]);
        eq("SE2 theta sin", x.theta().sin(), m[(1, 0)]);
        let y = SE3::any("y");
        let m = y.to_matrix();
        let r = y.rot().to_matrix();
        for i in 0..3 {
            eq_i("SE3 xyz", i, y.xyz()[i], m[(i, 3)]);
            for j in 0..3 {
                eq_i("SE3 rot", i * 3 + j, r[(i, j)], m[(i, j)]);
            }
        }
        let s = SO2::any("s");
        let m = s.to_matrix();
        eq("SO2 theta cos", s.to_theta().cos(), m[(0, 0)]);
        eq("SO2 theta sin", s.to_theta().sin(), m[(1, 0)]);
        mark("reached");
    }
}
