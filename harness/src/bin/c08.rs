//! NumericalDiff: each column is the central difference along its own tangent direction.
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

fn v2(x: &VectorVar2) -> Vec<f64> {
    x.0.iter().copied().collect()
}

macro_rules! multi {
    ($name:ident, $vname:ident, $jac:ident, $vjac:ident, $grad:ident, $dim:literal, $(($v:ident, $V:ident, $n:literal, $off:literal)),*) => {
        fn $name() {
            // quadratic in the parts: the central difference is exact for vector variables
            fn f($($v: $V,)*) -> VectorX {
                let mut all: Vec<f64> = Vec::new();
                $( all.extend($v.parts()); )*
                let mut lin = 0.0;
                let mut quad = 0.0;
                for (i, x) in all.iter().enumerate() {
                    lin += x * (i as f64 + 2.0);
                    quad += x * x * (i as f64 + 1.0) + x * all[0];
                }
                VectorX::from_vec(vec![lin, quad])
            }
            $( let $v = $V::any(stringify!($v)); )*
            let d = NumericalDiff::<6>::$jac(f, $(&$v,)*);
            let g = NumericalDiff::<6>::$grad(|$($v,)*| f($($v,)*)[1], $(&$v,)*);
            let v = f($($v.clone(),)*);
            ieq("rows", d.diff.nrows() as u64, 2);
            ieq("cols", d.diff.ncols() as u64, $dim);
            ieq("grad len", g.diff.len() as u64, $dim);
            eq("value 0", d.value[0], v[0]);
            eq("value 1", d.value[1], v[1]);
            eq("grad value", g.value, v[1]);
            let e = 1e-6;
            for k in 0..$dim {
                let mut p = [0.0; $dim];
                p[k] = e;
                let up = f($( $v.oplus(VectorX::from_column_slice(&p[$off..$off + $n]).as_view()), )*);
                p[k] = -e;
                let dn = f($( $v.oplus(VectorX::from_column_slice(&p[$off..$off + $n]).as_view()), )*);
                for i in 0..2 {
                    eq_i("central difference", i * $dim + k, d.diff[(i, k)], (up[i] - dn[i]) / (2.0 * e));
                }
                eq_i("gradient", k, g.diff[k], (up[1] - dn[1]) / (2.0 * e));
            }
            mark("reached");
        }
        fn $vname() {
            fn f($($v: $V,)*) -> VectorVar2 {
                let mut all: Vec<f64> = Vec::new();
                $( all.extend($v.parts()); )*
                let mut lin = 0.0;
                let mut quad = 0.0;
                for (i, x) in all.iter().enumerate() {
                    lin += x * (i as f64 + 2.0);
                    quad += x * x * (i as f64 + 1.0) + x * all[0];
                }
                VectorVar2::new(lin, quad)
            }
            $( let $v = $V::any(stringify!($v)); )*
            let d = NumericalDiff::<6>::$vjac(f, $(&$v,)*);
            let v = v2(&f($($v.clone(),)*));
            let w = v2(&d.value);
            ieq("rows", d.diff.nrows() as u64, 2);
            ieq("cols", d.diff.ncols() as u64, $dim);
            eq("value 0", w[0], v[0]);
            eq("value 1", w[1], v[1]);
            let e = 1e-6;
            for k in 0..$dim {
                let mut p = [0.0; $dim];
                p[k] = e;
                let up = f($( $v.oplus(VectorX::from_column_slice(&p[$off..$off + $n]).as_view()), )*);
                p[k] = -e;
                let dn = f($( $v.oplus(VectorX::from_column_slice(&p[$off..$off + $n]).as_view()), )*);
                let c = up.ominus(&dn);
                for i in 0..2 {
                    eq_i("central difference", i * $dim + k, d.diff[(i, k)], c[i] / (2.0 * e));
                }
            }
            mark("reached");
        }
    };
}
multi!(j1, w1, jacobian_1, jacobian_variable_1, gradient_1, 2, (a, VectorVar2, 2, 0));
multi!(j2, w2, jacobian_2, jacobian_variable_2, gradient_2, 3, (a, VectorVar2, 2, 0), (b, VectorVar1, 1, 2));
multi!(j3, w3, jacobian_3, jacobian_variable_3, gradient_3, 6, (a, VectorVar2, 2, 0), (b, VectorVar1, 1, 2), (c, VectorVar3, 3, 3));
multi!(j4, w4, jacobian_4, jacobian_variable_4, gradient_4, 7, (a, VectorVar2, 2, 0), (b, VectorVar1, 1, 2), (c, VectorVar3, 3, 3), (d0, SO2, 1, 6));
multi!(j5, w5, jacobian_5, jacobian_variable_5, gradient_5, 9, (a, VectorVar2, 2, 0), (b, VectorVar1, 1, 2), (c, VectorVar3, 3, 3), (d0, SO2, 1, 6), (g, VectorVar2, 2, 7));
multi!(j6, w6, jacobian_6, jacobian_variable_6, gradient_6, 12, (a, VectorVar2, 2, 0), (b, VectorVar1, 1, 2), (c, VectorVar3, 3, 3), (d0, SO2, 1, 6), (g, VectorVar2, 2, 7), (h, SE2, 3, 9));

entries! {
    fn jacobian1() { j1() }
    fn jacobian2() { j2() }
    fn jacobian3() { j3() }
    fn jacobian4() { j4() }
    fn jacobian5() { j5() }
    fn jacobian6() { j6() }
    fn variable1() { w1() }
    fn variable2() { w2() }
    fn variable3() { w3() }
    fn variable4() { w4() }
    fn variable5() { w5() }
    fn variable6() { w6() }
    fn so3_out() {
        // group-valued output: the difference is taken in the group
        let x = SO3::any("x");
        let y = SO3::any("y");
        let d = NumericalDiff::<6>::jacobian_variable_2(|x: SO3, y: SO3| x.compose(&y), &x, &y);
        ieq("rows", d.diff.nrows() as u64, 3);
        ieq("cols", d.diff.ncols() as u64, 6);
        let e = 1e-6;
        for k in 0..6 {
            let mut p = [0.0; 6];
            p[k] = e;
            let up = x.oplus(VectorX::from_column_slice(&p[..3]).as_view()).compose(&y.oplus(VectorX::from_column_slice(&p[3..]).as_view()));
            p[k] = -e;
            let dn = x.oplus(VectorX::from_column_slice(&p[..3]).as_view()).compose(&y.oplus(VectorX::from_column_slice(&p[3..]).as_view()));
            let c = up.ominus(&dn);
            for i in 0..3 {
                eq_i("central difference", i * 6 + k, d.diff[(i, k)], c[i] / (2.0 * e));
            }
        }
        mark("reached");
    }
    fn powers() {
        let x = VectorVar2::any("x");
        let f = |x: VectorVar2| VectorX::from_vec(vec![x.0[0] * x.0[0] * x.0[0] + x.0[1]]);
        macro_rules! p {
            ($p:literal, $e:literal) => {
                let d = NumericalDiff::<$p>::jacobian_1(f, &x);
                // cubic: the truncation error is exactly eps^2
                close(stringify!($p), d.diff[(0, 0)], 3.0 * x.0[0] * x.0[0] + $e * $e, 1e-9 * (1.0 + x.0[0] * x.0[0]));
                close(concat!(stringify!($p), "y"), d.diff[(0, 1)], 1.0, 1e-9);
            };
        }
        p!(2, 1e-2);
        p!(3, 1e-3);
        p!(4, 1e-4);
        mark("reached");
    }
    fn scalar() {
        let x = any("x");
        let e = any("e");
        assume(e > 0.0);
        let d = numerical_derivative(|x| x * x * x, x, e);
        eq("value", d.value, x * x * x);
        eq("central difference", d.diff, 3.0 * x * x + e * e);
        mark("reached");
    }
}
