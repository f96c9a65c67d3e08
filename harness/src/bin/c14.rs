//! Factors: error and linearization against the residual, noise model and kernel they were built from.
use factrs::containers::*;
use factrs::linalg::*;
use factrs::noise::*;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::traits::*;
use factrs::variables::*;
use factrs::{assign_symbols, fac};
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

assign_symbols!(X: VectorVar2; Y: VectorVar3; P: SE2);

fn step<V: Sym>(x: &V, t: &[f64]) -> V {
    x.oplus(VectorX::from_column_slice(&t[..V::DIM]).as_view())
}

/// a nonlinear residual of two variables of different dimension
#[derive(Clone, Debug)]
struct Mix(f64);
impl std::fmt::Display for Mix {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "r")
    }
}
#[factrs::mark]
impl Residual2 for Mix {
    type Differ = ForwardProp<Const<5>>;
    type V1 = VectorVar2;
    type V2 = VectorVar3;
    type DimIn = Const<5>;
    type DimOut = Const<2>;
    fn residual2<T: Numeric>(&self, a: VectorVar2<T>, b: VectorVar3<T>) -> VectorX<T> {
        VectorX::from_vec(vec![a.0[0] * b.0[1] + a.0[1] * T::from(3.0) - T::from(self.0), b.0[0] + b.0[2] * a.0[0]])
    }
}

/// error and linearization from the parts
fn parts(f: &Factor, res: &dyn Residual, noise: &dyn Fn(MatrixX) -> MatrixX, kernel: &dyn RobustCost, keys: &[Key], dims: &[usize], v: &Values) {
    let d = res.residual_jacobian(v, keys);
    let r = res.residual(v, keys);
    let n = r.len();
    let wr = noise(MatrixX::from_column_slice(n, 1, r.as_slice()));
    let wj = noise(d.diff);
    let mut n2 = 0.0;
    for i in 0..n {
        n2 += wr[(i, 0)] * wr[(i, 0)];
    }
    eq("error", f.error(v), kernel.loss(n2));
    ieq("dim_out", f.dim_out() as u64, n as u64);
    let lin = f.linearize(v);
    let w = kernel.weight(n2).sqrt();
    let total: usize = dims.iter().sum();
    ieq("rows", lin.a.mat().nrows() as u64, n as u64);
    ieq("cols", lin.a.mat().ncols() as u64, total as u64);
    ieq("b len", lin.b.len() as u64, n as u64);
    ieq("lin dim_out", lin.dim_out() as u64, n as u64);
    ieq("nkeys", lin.keys.len() as u64, keys.len() as u64);
    ieq("fkeys", f.keys().len() as u64, keys.len() as u64);
    for i in 0..n {
        eq_i("b", i, lin.b[i], -(w * wr[(i, 0)]));
    }
    let mut off = 0;
    for k in 0..keys.len() {
        ieq_i("key", k, lin.keys[k].0, keys[k].0);
        ieq_i("fkey", k, f.keys()[k].0, keys[k].0);
        ieq_i("idx", k, lin.a.idx()[k] as u64, off as u64);
        let b = lin.a.get_block(k);
        ieq_i("block rows", k, b.nrows() as u64, n as u64);
        ieq_i("block cols", k, b.ncols() as u64, dims[k] as u64);
        for i in 0..n {
            for j in 0..dims[k] {
                eq_i("block", (k * 100 + i * 10 + j) as usize, b[(i, j)], w * wj[(i, off + j)]);
                eq_i("mat", (k * 100 + i * 10 + j) as usize, lin.a.mat()[(i, off + j)], b[(i, j)]);
            }
        }
        off += dims[k];
    }
}
/// -A^T b is the gradient of the factor error
fn gradient(f: &Factor, v: &Values, moved: &Values, dim: usize) {
    let lin = f.linearize(v);
    let e = f.error(moved);
    for k in 0..dim {
        let mut g = 0.0;
        for i in 0..lin.b.len() {
            g -= lin.a.mat()[(i, k)] * lin.b[i];
        }
        deriv("gradient", k, "tau", k, g, e);
    }
}

fn scene() -> (VectorVar2, VectorVar3, Values, [Key; 2]) {
    let x = VectorVar2::any("x");
    let y = VectorVar3::any("y");
    let mut v = Values::new();
    v.insert_unchecked(X(3), x.clone());
    v.insert_unchecked(Y(1), y.clone());
    (x, y, v, [X(3).into(), Y(1).into()])
}
fn moved(x: &VectorVar2, y: &VectorVar3) -> Values {
    let t = tau::<5>("tau");
    let mut v = Values::new();
    v.insert_unchecked(X(3), step(x, &t[..2]));
    v.insert_unchecked(Y(1), step(y, &t[2..]));
    v
}
fn pos(name: &str) -> f64 {
    let c = any(name);
    assume(c > 0.0);
    c
}
fn sig() -> GaussianNoise<2> {
    let s = [pos("s0"), pos("s1")];
    GaussianNoise::<2>::from_vec_sigma(Vector2::new(s[0], s[1]).as_view())
}
fn kernel<R: RobustCost + Clone + 'static>(r: R) {
    let (_, _, v, keys) = scene();
    let z = any("z");
    let f = FactorBuilder::new2(Mix(z), X(3), Y(1)).noise(sig()).robust(r.clone()).build();
    parts(&f, &Mix(z), &|m| sig().whiten_mat(m), &r, &keys, &[2, 3], &v);
    mark("reached");
}
/// the gradient is taken with unit noise and with a linear residual: the chain rule through
/// residual and noise is in the L2 case
fn kernel_gradient<R: RobustCost + Clone + 'static>(r: R) {
    let x = VectorVar2::any("x");
    let z = VectorVar2::any("z");
    let t = tau::<2>("tau");
    let mut v = Values::new();
    v.insert(X(3), x.clone());
    let mut m = Values::new();
    m.insert(X(3), step(&x, &t));
    let f = FactorBuilder::new1(PriorResidual::new(z), X(3)).robust(r).build();
    gradient(&f, &v, &m, 2);
    mark("reached");
}

struct Full<const N: usize>;
macro_rules! arity {
    ($R:ident, $Tr:ident, $f:ident, $fn:ident, $new:ident, $newu:ident, $n:literal, $dim:literal, $(($T:ident, $v:ident, $i:literal)),*) => {
        #[derive(Clone, Debug)]
        struct $R;
        impl std::fmt::Display for $R {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "r")
            }
        }
        #[factrs::mark]
        impl $Tr for $R {
            type Differ = ForwardProp<Const<$dim>>;
            $( type $T = VectorVar2; )*
            type DimIn = Const<$dim>;
            type DimOut = Const<2>;
            fn $f<T: Numeric>(&self, $($v: VectorVar2<T>,)*) -> VectorX<T> {
                let mut s = T::from(0.0);
                let mut p = T::from(1.0);
                $( s += $v.0[0] * T::from($i as f64 + 1.0) + $v.0[1] * $v.0[1] * T::from($i as f64 + 3.0);
                   p *= $v.0[0]; )*
                VectorX::from_vec(vec![s, p])
            }
        }
        fn $fn() {
            let ks: [u64; 6] = [41, 7, 13, 3, 99, 8];
            let keys: Vec<Key> = ks[..$n].iter().map(|k| X(*k).into()).collect();
            let mut v = Values::new();
            $( v.insert_unchecked(keys[$i], VectorVar2::any(concat!("x", stringify!($v)))); )*
            let s = pos("s0");
            let noise = GaussianNoise::<2>::from_scalar_sigma(s);
            let w = noise.clone();
            let c = Cauchy::new(pos("c"));
            let f = match choice("form", 4) {
                0 => FactorBuilder::$new($R, $(X(ks[$i])),*).noise(noise).robust(c.clone()).build(),
                1 => FactorBuilder::$newu($R, $(keys[$i]),*).robust(c.clone()).noise(noise).build(),
                2 => fac![$R, ($(X(ks[$i]),)*), noise, c.clone()],
                _ => fac![$R, [$(X(ks[$i])),*], noise, c.clone()],
            };
            parts(&f, &$R, &|m| w.whiten_mat(m), &c, &keys, &[2; 6][..$n], &v);
            mark("reached");
        }
    };
}
arity!(R1, Residual1, residual1, a1, new1, new1_unchecked, 1, 2, (V1, a, 0));
arity!(R2, Residual2, residual2, a2, new2, new2_unchecked, 2, 4, (V1, a, 0), (V2, b, 1));
arity!(R3, Residual3, residual3, a3, new3, new3_unchecked, 3, 6, (V1, a, 0), (V2, b, 1), (V3, c, 2));
arity!(R4, Residual4, residual4, a4, new4, new4_unchecked, 4, 8, (V1, a, 0), (V2, b, 1), (V3, c, 2), (V4, d0, 3));
arity!(R5, Residual5, residual5, a5, new5, new5_unchecked, 5, 10, (V1, a, 0), (V2, b, 1), (V3, c, 2), (V4, d0, 3), (V5, e, 4));
arity!(R6, Residual6, residual6, a6, new6, new6_unchecked, 6, 12, (V1, a, 0), (V2, b, 1), (V3, c, 2), (V4, d0, 3), (V5, e, 4), (V6, g, 5));

entries! {
    fn k_l2() { kernel(L2) }
    fn k_l1() { kernel(L1) }
    fn k_huber() { kernel(Huber::new(pos("k"))) }
    fn k_fair() { kernel(Fair::new(pos("k"))) }
    fn k_cauchy() { kernel(Cauchy::new(pos("k"))) }
    fn k_geman() { kernel(GemanMcClure::new(pos("k"))) }
    fn k_welsch() { kernel(Welsch::new(pos("k"))) }
    fn k_tukey() { kernel(Tukey::new(pos("k"))) }
    fn g_huber() { kernel_gradient(Huber::new(pos("k"))) }
    fn g_fair() { kernel_gradient(Fair::new(pos("k"))) }
    fn g_cauchy() { kernel_gradient(Cauchy::new(pos("k"))) }
    fn g_geman() { kernel_gradient(GemanMcClure::new(pos("k"))) }
    fn g_welsch() { kernel_gradient(Welsch::new(pos("k"))) }
    fn g_tukey() { kernel_gradient(Tukey::new(pos("k"))) }
    fn g_l2() {
        let (x, y, v, _) = scene();
        let f = FactorBuilder::new2(Mix(any("z")), X(3), Y(1)).noise(sig()).build();
        gradient(&f, &v, &moved(&x, &y), 5);
        mark("reached");
    }
    /// a full information matrix and a kernel
    fn full_info() {
        let (_, _, v, keys) = scene();
        let z = any("z");
        let l = [pos("l0"), any("l1"), pos("l2")];
        let mk = || GaussianNoise::<2>::from_matrix_inf(Matrix2::new(l[0] * l[0], l[0] * l[1], l[0] * l[1], l[1] * l[1] + l[2] * l[2]).as_view());
        let r = GemanMcClure::new(pos("k"));
        let f = fac![Mix(z), (X(3), Y(1)), mk(), r.clone()];
        parts(&f, &Mix(z), &|m| mk().whiten_mat(m), &r, &keys, &[2, 3], &v);
        mark("reached");
    }
    /// whatever is left out is unit noise and the quadratic loss
    fn defaults() {
        let (_, _, v, keys) = scene();
        let z = any("z");
        let noise = sig();
        match choice("form", 7) {
            0 => parts(&FactorBuilder::new2(Mix(z), X(3), Y(1)).build(), &Mix(z), &|m| m, &L2, &keys, &[2, 3], &v),
            1 => parts(&fac![Mix(z), (X(3), Y(1))], &Mix(z), &|m| m, &L2, &keys, &[2, 3], &v),
            2 => parts(&fac![Mix(z), [X(3), Y(1)]], &Mix(z), &|m| m, &L2, &keys, &[2, 3], &v),
            3 => parts(&fac![Mix(z), [X(3), Y(1)], noise.clone()], &Mix(z), &|m| noise.whiten_mat(m), &L2, &keys, &[2, 3], &v),
            4 => parts(&FactorBuilder::new2(Mix(z), X(3), Y(1)).noise(noise.clone()).build(), &Mix(z), &|m| noise.whiten_mat(m), &L2, &keys, &[2, 3], &v),
            5 => {
                let r = Huber::new(pos("k"));
                parts(&FactorBuilder::new2(Mix(z), X(3), Y(1)).robust(r.clone()).build(), &Mix(z), &|m| m, &r, &keys, &[2, 3], &v)
            }
            _ => {
                // the last call wins
                let f = FactorBuilder::new2(Mix(z), X(3), Y(1)).noise(noise.clone()).robust(L1).noise(UnitNoise::<2>).robust(L2).build();
                parts(&f, &Mix(z), &|m| m, &L2, &keys, &[2, 3], &v)
            }
        }
        mark("reached");
    }
    fn arity1() { a1() }
    fn arity2() { a2() }
    fn arity3() { a3() }
    fn arity4() { a4() }
    fn arity5() { a5() }
    fn arity6() { a6() }
    /// a group-valued residual with a full covariance block
    fn between_se2() {
        let z = SE2::any("z");
        let x = SE2::any("x");
        let y = x.compose(&z).compose(&SE2::any("g"));
        let mut v = Values::new();
        v.insert(P(0), x);
        v.insert(P(1), y);
        let s = [pos("s0"), pos("s1")];
        let noise = GaussianNoise::<3>::from_vec_sigma(Vector3::new(s[0], s[1], s[1]).as_view());
        let f = fac![BetweenResidual::new(z.clone()), (P(0), P(1)), noise.clone(), Fair::new(2.0)];
        parts(&f, &BetweenResidual::new(z), &|m| noise.whiten_mat(m), &Fair::new(2.0), &[P(0).into(), P(1).into()], &[3, 3], &v);
        mark("reached");
    }
    /// blocks of a MatrixBlock partition its columns
    fn matrix_block() {
        let m = any_n::<12>("m");
        let mat = MatrixX::from_fn(2, 6, |i, j| m[i * 6 + j]);
        let cuts: [&[usize]; 4] = [&[0], &[0, 1], &[0, 2, 5], &[0, 1, 2, 4]];
        let idx = cuts[choice("cuts", 4)];
        let b = MatrixBlock::new(mat.clone(), idx.to_vec());
        let x = any_n::<6>("x");
        for k in 0..idx.len() {
            let end = if k + 1 < idx.len() { idx[k + 1] } else { 6 };
            let blk = b.get_block(k);
            ieq_i("cols", k, blk.ncols() as u64, (end - idx[k]) as u64);
            let xs = VectorX::from_column_slice(&x[idx[k]..end]);
            let y = b.mul(k, xs.as_view());
            for i in 0..2 {
                let mut s = 0.0;
                for j in idx[k]..end {
                    eq_i("block", k * 100 + i * 10 + j, blk[(i, j - idx[k])], m[i * 6 + j]);
                    s += m[i * 6 + j] * x[j];
                }
                eq_i("mul", k * 10 + i, y[i], s);
            }
        }
        for i in 0..12 {
            eq_i("mat", i, b.mat()[(i / 6, i % 6)], m[i]);
        }
        mark("reached");
    }
}
