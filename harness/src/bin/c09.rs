//! Prior and between residuals, and residuals of any arity taken through Values and keys.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linalg::*;
use factrs::residuals::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

const LEFT: bool = cfg!(feature = "left");

fn step<V: Sym>(x: &V, t: &[f64]) -> V {
    x.oplus(VectorX::from_column_slice(&t[..V::DIM]).as_view())
}
/// the difference a [-] b for the configured side, from the group operations alone
fn diff<V: Sym>(a: &V, b: &V) -> VectorX {
    if LEFT {
        a.compose(&b.inverse()).log()
    } else {
        b.inverse().compose(a).log()
    }
}
fn check(d: &DiffResult<VectorX, MatrixX>, r: &VectorX, want: &VectorX, moved: &VectorX, dim: usize) {
    ieq("rows", d.diff.nrows() as u64, want.len() as u64);
    ieq("cols", d.diff.ncols() as u64, dim as u64);
    ieq("len", r.len() as u64, want.len() as u64);
    for i in 0..want.len() {
        eq_i("residual", i, r[i], want[i]);
        eq_i("value", i, d.value[i], want[i]);
        for k in 0..dim {
            deriv("jacobian", i * dim + k, "tau", k, d.diff[(i, k)], moved[i]);
        }
    }
}

macro_rules! prior {
    ($name:ident, $zero:ident, $V:ident, $n:literal) => {
        fn $name() {
            // every z is x*g for some g
            let g = $V::any("g");
            let x = $V::any("x");
            let z = if LEFT { g.compose(&x) } else { x.compose(&g) };
            let t = tau::<$n>("tau");
            let res = PriorResidual::new(z.clone());
            let keys = [Key(7)];
            let mut v = Values::new();
            v.insert_unchecked(Key(7), x.clone());
            let r = res.residual(&v, &keys);
            let d = res.residual_jacobian(&v, &keys);
            ieq("dim_in", res.dim_in() as u64, $n);
            ieq("dim_out", res.dim_out() as u64, $n);
            let moved = diff(&z, &step(&x, &t));
            check(&d, &r, &diff(&z, &x), &moved, $n);
            mark("reached");
        }
        fn $zero() {
            let z = $V::any("z");
            let keys = [Key(7)];
            let mut v = Values::new();
            v.insert_unchecked(Key(7), z.clone());
            let r = PriorResidual::new(z.clone()).residual(&v, &keys);
            for i in 0..$n {
                eq_i("prior zero", i, r[i], 0.0);
            }
            let x = $V::any("x");
            let keys = [Key(7), Key(9)];
            let mut v = Values::new();
            v.insert_unchecked(Key(7), x.clone());
            v.insert_unchecked(Key(9), x.compose(&z));
            let r = BetweenResidual::new(z.clone()).residual(&v, &keys);
            for i in 0..$n {
                eq_i("between zero", i, r[i], 0.0);
            }
            mark("reached");
        }
    };
}
macro_rules! between {
    ($name:ident, $V:ident, $n:literal, $m:literal) => {
        fn $name() {
            let z = $V::any("z");
            let x = $V::any("x");
            let g = $V::any("g");
            let y = if LEFT { g.compose(&x.compose(&z)) } else { x.compose(&z).compose(&g) };
            let t = tau::<$m>("tau");
            let res = BetweenResidual::new(z.clone());
            let keys = [Key(9), Key(7)];
            let mut v = Values::new();
            v.insert_unchecked(Key(7), y.clone());
            v.insert_unchecked(Key(9), x.clone());
            let r = res.residual(&v, &keys);
            let d = res.residual_jacobian(&v, &keys);
            ieq("dim_in", res.dim_in() as u64, $m);
            ieq("dim_out", res.dim_out() as u64, $n);
            let moved = diff(&step(&x, &t[..$n]).compose(&z), &step(&y, &t[$n..]));
            check(&d, &r, &diff(&x.compose(&z), &y), &moved, $m);
            mark("reached");
        }
    };
}
prior!(p_so2, z_so2, SO2, 1);
prior!(p_se2, z_se2, SE2, 3);
prior!(p_so3, z_so3, SO3, 3);
prior!(p_se3, z_se3, SE3, 6);
prior!(p_v1, z_v1, VectorVar1, 1);
prior!(p_v2, z_v2, VectorVar2, 2);
prior!(p_v3, z_v3, VectorVar3, 3);
prior!(p_v4, z_v4, VectorVar4, 4);
prior!(p_v5, z_v5, VectorVar5, 5);
prior!(p_v6, z_v6, VectorVar6, 6);
prior!(p_bias, z_bias, ImuBias, 6);
between!(b_so2, SO2, 1, 2);
between!(b_se2, SE2, 3, 6);
between!(b_so3, SO3, 3, 6);
between!(b_se3, SE3, 6, 12);
between!(b_v1, VectorVar1, 1, 2);
between!(b_v2, VectorVar2, 2, 4);
between!(b_v3, VectorVar3, 3, 6);
between!(b_v4, VectorVar4, 4, 8);
between!(b_v5, VectorVar5, 5, 10);
between!(b_v6, VectorVar6, 6, 12);
between!(b_bias, ImuBias, 6, 12);

// residuals written by a user, of every arity, all arguments of one type:
// the i-th key is the i-th argument and the i-th column block
macro_rules! arity {
    ($R:ident, $Tr:ident, $f:ident, $fn:ident, $n:literal, $dim:literal, $(($T:ident, $v:ident, $i:literal)),*) => {
        #[derive(Clone, Debug)]
        struct $R;
        impl std::fmt::Display for $R {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "r")
            }
        }
        #[factrs::mark]
        impl $Tr for $R {
            type Differ = ForwardProp<Const<$dim>>;
            $( type $T = VectorVar2; )*
            type DimIn = Const<$dim>;
            type DimOut = Const<2>;
            fn $f<T: Numeric>(&self, $($v: VectorVar2<T>,)*) -> VectorX<T> {
                let mut s = T::from(0.0);
                let mut p = T::from(1.0);
                $( s += $v.0[0] * T::from($i as f64 + 1.0) + $v.0[1] * $v.0[1] * T::from($i as f64 + 3.0);
                   p *= $v.0[0]; )*
                VectorX::from_vec(vec![s, p])
            }
        }
        fn $fn() {
            let t = tau::<$dim>("tau");
            let res = $R;
            let mut v = Values::new();
            // keys in an order that is not the numerical one
            let ks: [u64; 6] = [41, 7, 1 << 40, 3, 99, 8];
            let keys: Vec<Key> = ks[..$n].iter().map(|k| Key(*k)).collect();
            $( let $v = VectorVar2::any(concat!("x", stringify!($v))); )*
            $( v.insert_unchecked(keys[$i], $v.clone()); )*
            let r = res.residual(&v, &keys);
            let d = res.residual_jacobian(&v, &keys);
            ieq("dim_in", res.dim_in() as u64, $dim);
            ieq("dim_out", res.dim_out() as u64, 2);
            let want = res.$f::<f64>($($v.clone(),)*);
            let moved = res.$f::<f64>($( step(&$v, &t[2 * $i..2 * $i + 2]), )*);
            check(&d, &r, &want, &moved, $dim);
            mark("reached");
        }
    };
}
arity!(R1, Residual1, residual1, a1, 1, 2, (V1, a, 0));
arity!(R2, Residual2, residual2, a2, 2, 4, (V1, a, 0), (V2, b, 1));
arity!(R3, Residual3, residual3, a3, 3, 6, (V1, a, 0), (V2, b, 1), (V3, c, 2));
arity!(R4, Residual4, residual4, a4, 4, 8, (V1, a, 0), (V2, b, 1), (V3, c, 2), (V4, d0, 3));
arity!(R5, Residual5, residual5, a5, 5, 10, (V1, a, 0), (V2, b, 1), (V3, c, 2), (V4, d0, 3), (V5, e, 4));
arity!(R6, Residual6, residual6, a6, 6, 12, (V1, a, 0), (V2, b, 1), (V3, c, 2), (V4, d0, 3), (V5, e, 4), (V6, g, 5));

entries! {
    fn prior_so2() { p_so2() }
    fn prior_se2() { p_se2() }
    fn prior_so3() { p_so3() }
    fn prior_se3() { p_se3() }
    fn prior_v1() { p_v1() }
    fn prior_v2() { p_v2() }
    fn prior_v3() { p_v3() }
    fn prior_v4() { p_v4() }
    fn prior_v5() { p_v5() }
    fn prior_v6() { p_v6() }
    fn prior_bias() { p_bias() }
    fn between_so2() { b_so2() }
    fn between_se2() { b_se2() }
    fn between_so3() { b_so3() }
    fn between_se3() { b_se3() }
    fn between_v1() { b_v1() }
    fn between_v2() { b_v2() }
    fn between_v3() { b_v3() }
    fn between_v4() { b_v4() }
    fn between_v5() { b_v5() }
    fn between_v6() { b_v6() }
    fn between_bias() { b_bias() }
    fn zero_so2() { z_so2() }
    fn zero_se2() { z_se2() }
    fn zero_so3() { z_so3() }
    fn zero_se3() { z_se3() }
    fn zero_v3() { z_v3(); }
    fn zero_v16() { z_v1(); z_v2(); z_v4(); z_v5(); z_v6(); z_bias(); }
    fn arity_1() { a1() }
    fn arity_2() { a2() }
    fn arity_3() { a3() }
    fn arity_4() { a4() }
    fn arity_5() { a5() }
    fn arity_6() { a6() }
}
