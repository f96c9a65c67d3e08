//! ForwardProp Jacobians are the derivatives with respect to oplus, columns in argument order.
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

fn step<V: Sym>(x: &V, t: &[f64]) -> V {
    x.oplus(VectorX::from_column_slice(&t[..V::DIM]).as_view())
}

fn check(label: &str, d: &DiffResult<VectorX, MatrixX>, plain: &VectorX, moved: &VectorX, dim: usize) {
    ieq("rows", d.diff.nrows() as u64, plain.len() as u64);
    ieq("cols", d.diff.ncols() as u64, dim as u64);
    ieq("len", d.value.len() as u64, plain.len() as u64);
    for i in 0..plain.len() {
        eq_i("value", i, d.value[i], plain[i]);
        for k in 0..dim {
            deriv(label, i * dim + k, "tau", k, d.diff[(i, k)], moved[i]);
        }
    }
}

macro_rules! coords {
    ($name:ident, $V:ident, $n:literal, $f:expr) => {
        fn $name() {
            fn f<T: Numeric>(x: $V<T>) -> VectorX<T> {
                $f(x)
            }
            let x = $V::any("x");
            let t = tau::<$n>("tau");
            let d = ForwardProp::<Const<$n>>::jacobian_1(f, &x);
            check("coordinates", &d, &f(x.clone()), &f(step(&x, &t)), $n);
            mark("reached");
        }
    };
}
fn flat<T: Numeric, const R: usize, const C: usize>(m: Matrix<R, C, T>) -> VectorX<T> {
    VectorX::from_iterator(R * C, m.iter().cloned())
}
coords!(c_so2, SO2, 1, |x: SO2<T>| flat(x.to_matrix()));
coords!(c_se2, SE2, 3, |x: SE2<T>| flat(x.to_matrix()));
coords!(c_so3, SO3, 3, |x: SO3<T>| flat(x.to_matrix()));
coords!(c_se3, SE3, 6, |x: SE3<T>| flat(x.to_matrix()));
coords!(c_so3q, SO3, 3, |x: SO3<T>| VectorX::from_iterator(4, x.xyzw.iter().cloned()));
coords!(c_v1, VectorVar1, 1, |x: VectorVar1<T>| VectorX::from_iterator(1, x.0.iter().cloned()));
coords!(c_v2, VectorVar2, 2, |x: VectorVar2<T>| VectorX::from_iterator(2, x.0.iter().cloned()));
coords!(c_v3, VectorVar3, 3, |x: VectorVar3<T>| VectorX::from_iterator(3, x.0.iter().cloned()));
coords!(c_v4, VectorVar4, 4, |x: VectorVar4<T>| VectorX::from_iterator(4, x.0.iter().cloned()));
coords!(c_v5, VectorVar5, 5, |x: VectorVar5<T>| VectorX::from_iterator(5, x.0.iter().cloned()));
coords!(c_v6, VectorVar6, 6, |x: VectorVar6<T>| VectorX::from_iterator(6, x.0.iter().cloned()));
coords!(c_bias, ImuBias, 6, |x: ImuBias<T>| VectorX::from_iterator(6, x.gyro().iter().chain(x.accel().iter()).cloned()));
// through the group operations
coords!(c_inv, SE3, 6, |x: SE3<T>| flat(x.inverse().to_matrix()));
coords!(c_sq, SE2, 3, |x: SE2<T>| flat(x.compose(&x).to_matrix()));
coords!(c_log_so3, SO3, 3, |x: SO3<T>| x.log());
coords!(c_log_so2, SO2, 1, |x: SO2<T>| x.log());
coords!(c_log_se2, SE2, 3, |x: SE2<T>| x.log());
coords!(c_exp_so3, VectorVar3, 3, |x: VectorVar3<T>| flat(SO3::<T>::exp(VectorX::from_iterator(3, x.0.iter().cloned()).as_view()).to_matrix()));
coords!(c_exp_se2, VectorVar3, 3, |x: VectorVar3<T>| flat(SE2::<T>::exp(VectorX::from_iterator(3, x.0.iter().cloned()).as_view()).to_matrix()));
coords!(c_exp_se3, VectorVar6, 6, |x: VectorVar6<T>| flat(SE3::<T>::exp(VectorX::from_iterator(6, x.0.iter().cloned()).as_view()).to_matrix()));

// one scalar per argument type, so that every column block is distinguishable
fn s1<T: Numeric>(x: &SO2<T>) -> T {
    let m = x.to_matrix();
    m[(0, 0)] * T::from(2.0) + m[(1, 0)]
}
fn s2<T: Numeric>(x: &VectorVar3<T>) -> T {
    x.0[0] * x.0[1] + x.0[2]
}
fn s3<T: Numeric>(x: &SE2<T>) -> T {
    let m = x.to_matrix();
    m[(0, 2)] + m[(1, 2)] * m[(0, 0)]
}
fn s4<T: Numeric>(x: &VectorVar1<T>) -> T {
    x.0[0] * x.0[0]
}
fn s5<T: Numeric>(x: &SO3<T>) -> T {
    let m = x.to_matrix();
    m[(0, 1)] + m[(2, 0)] * T::from(3.0)
}
fn s6<T: Numeric>(x: &VectorVar2<T>) -> T {
    x.0[0] - x.0[1] * T::from(5.0)
}

macro_rules! multi {
    ($name:ident, $jac:ident, $gname:ident, $grad:ident, $dim:literal, $(($v:ident, $V:ident, $s:ident, $off:literal, $c:literal)),*) => {
        fn $name() {
            fn f<T: Numeric>($($v: $V<T>,)*) -> VectorX<T> {
                let mut prod = T::from(1.0);
                let mut sum = T::from(0.0);
                let mut mix = T::from(0.0);
                $( let s = $s(&$v); prod *= s; sum += s * T::from($c); mix = mix * s + s; )*
                VectorX::from_vec(vec![prod, sum, mix])
            }
            let t = tau::<13>("tau");
            $( let $v = $V::any(stringify!($v)); )*
            let d = ForwardProp::<Const<$dim>>::$jac(f, $(&$v,)*);
            check("blocks", &d, &f($($v.clone(),)*), &f($(step(&$v, &t[$off..]),)*), $dim);
            mark("reached");
        }
        fn $gname() {
            fn f<T: Numeric>($($v: $V<T>,)*) -> T {
                let mut mix = T::from(1.0);
                $( let s = $s(&$v); mix = mix * s + s * T::from($c); )*
                mix
            }
            let t = tau::<13>("tau");
            $( let $v = $V::any(stringify!($v)); )*
            let d = ForwardProp::<Const<$dim>>::$grad(f, $(&$v,)*);
            ieq("len", d.diff.len() as u64, $dim);
            eq("value", d.value, f($($v.clone(),)*));
            let m = f($(step(&$v, &t[$off..]),)*);
            for k in 0..$dim {
                deriv("gradient", k, "tau", k, d.diff[k], m);
            }
            mark("reached");
        }
    };
}
multi!(j1, jacobian_1, g1, gradient_1, 1, (a, SO2, s1, 0, 2.0));
multi!(j2, jacobian_2, g2, gradient_2, 4, (a, SO2, s1, 0, 2.0), (b, VectorVar3, s2, 1, 3.0));
multi!(j3, jacobian_3, g3, gradient_3, 7, (a, SO2, s1, 0, 2.0), (b, VectorVar3, s2, 1, 3.0), (c, SE2, s3, 4, 5.0));
multi!(j4, jacobian_4, g4, gradient_4, 8, (a, SO2, s1, 0, 2.0), (b, VectorVar3, s2, 1, 3.0), (c, SE2, s3, 4, 5.0), (d0, VectorVar1, s4, 7, 7.0));
multi!(j5, jacobian_5, g5, gradient_5, 11, (a, SO2, s1, 0, 2.0), (b, VectorVar3, s2, 1, 3.0), (c, SE2, s3, 4, 5.0), (d0, VectorVar1, s4, 7, 7.0), (e, SO3, s5, 8, 11.0));
multi!(j6, jacobian_6, g6, gradient_6, 13, (a, SO2, s1, 0, 2.0), (b, VectorVar3, s2, 1, 3.0), (c, SE2, s3, 4, 5.0), (d0, VectorVar1, s4, 7, 7.0), (e, SO3, s5, 8, 11.0), (g, VectorVar2, s6, 11, 13.0));

entries! {
    fn so2() { c_so2() }
    fn se2() { c_se2() }
    fn so3() { c_so3() }
    fn so3_quaternion() { c_so3q() }
    fn se3() { c_se3() }
    fn v1() { c_v1() }
    fn v2() { c_v2() }
    fn v3() { c_v3() }
    fn v4() { c_v4() }
    fn v5() { c_v5() }
    fn v6() { c_v6() }
    fn bias() { c_bias() }
    fn inverse_se3() { c_inv() }
    fn square_se2() { c_sq() }
    fn log_so2() { c_log_so2() }
    fn log_se2() { c_log_se2() }
    fn log_so3() { c_log_so3() }
    fn exp_so3() { c_exp_so3() }
    fn exp_se2() { c_exp_se2() }
    fn exp_se3() { c_exp_se3() }
    fn jacobian1() { j1() }
    fn jacobian2() { j2() }
    fn jacobian3() { j3() }
    fn jacobian4() { j4() }
    fn jacobian5() { j5() }
    fn jacobian6() { j6() }
    fn gradient1() { g1() }
    fn gradient2() { g2() }
    fn gradient3() { g3() }
    fn gradient4() { g4() }
    fn gradient5() { g5() }
    fn gradient6() { g6() }
    fn scalar() {
        fn f<T: Numeric>(x: T) -> T {
            x * x * x + x.sin() * x - x.exp() + T::from(2.0) / (x * x + T::from(1.0))
        }
        let x = any("x");
        let t = tau::<1>("tau");
        let d = forward_prop_derivative(f, x);
        eq("value", d.value, f(x));
        deriv("derivative", 0, "tau", 0, d.diff, f(x + t[0]));
        mark("reached");
    }
}
