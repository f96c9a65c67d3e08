//! oplus, ominus and minus: the definitions every residual and optimizer step relies on.
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

const LEFT: bool = cfg!(feature = "left");

fn delta<V: Sym>(name: &str) -> VectorX {
    let mut v = VectorX::zeros(V::DIM);
    for i in 0..V::DIM {
        v[i] = any_i(name, i);
    }
    v
}

fn samev(label: &str, a: &VectorX, b: &VectorX) {
    ieq(label, a.len() as u64, b.len() as u64);
    for i in 0..a.len() {
        eq_i(label, i, a[i], b[i]);
    }
}

/// the definitions
fn defs<V: Sym + 'static>() {
    let x = V::any("x");
    let d = delta::<V>("d");
    let e = V::exp(d.as_view());
    let want = if LEFT { e.compose(&x) } else { x.compose(&e) };
    same("oplus", &x.oplus(d.as_view()), &want);
    same("oplus_right", &x.oplus_right(d.as_view()), &x.compose(&e));
    same("oplus_left", &x.oplus_left(d.as_view()), &e.compose(&x));
    let mut m: Box<dyn factrs::variables::VariableSafe> = Box::new(x.clone());
    m.oplus_mut(d.as_view());
    match m.downcast_ref::<V>() {
        Some(m) => same("oplus_mut", m, &want),
        None => holds("oplus_mut keeps the type", false),
    }
    ieq("dim", V::DIM as u64, Variable::dim(&x) as u64);
    mark("reached");
}

fn defs_minus<V: Sym>() {
    let x = V::any("x");
    let y = V::any("y");
    let r = y.inverse().compose(&x);
    same("minus", &x.minus(&y), &r);
    // every pair is of the form (y*z, y), and of the form (z*y, y)
    let z = V::any("z");
    let zl = z.log();
    if choice("side", 2) == 0 {
        let xr = y.compose(&z);
        samev("ominus_right", &xr.ominus_right(&y), &zl);
        if !LEFT {
            samev("ominus", &xr.ominus(&y), &zl);
        }
    } else {
        let xl = z.compose(&y);
        samev("ominus_left", &xl.ominus_left(&y), &zl);
        if LEFT {
            samev("ominus", &xl.ominus(&y), &zl);
        }
    }
    mark("reached");
}

/// ominus undoes oplus: the tangent vector is recovered exactly for vector spaces
fn vec_round<V: Sym>() {
    let x = V::any("x");
    let y = V::any("y");
    let d = delta::<V>("d");
    samev("(x+d)-x", &x.oplus(d.as_view()).ominus(&x), &d);
    same("x+(y-x)", &x.oplus(y.ominus(&x).as_view()), &y);
    samev("x-x", &x.ominus(&x), &VectorX::zeros(V::DIM));
    mark("reached");
}

fn lie_round<V: Sym + MatrixLieGroup>(tol: impl Fn(&V) -> f64)
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<V::TangentDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::MatrixDim, V::MatrixDim>
        + nalgebra::allocator::Allocator<V::VectorDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::TangentDim, nalgebra::Const<1>>
        + nalgebra::allocator::Allocator<V::VectorDim, nalgebra::Const<1>>,
{
    let x = V::any("x");
    // y = x*z for an arbitrary z: every y is of this form
    let z = V::any("z");
    let y = if LEFT { z.compose(&x) } else { x.compose(&z) };
    let w = x.oplus(y.ominus(&x).as_view());
    // compared relative to x
    let w = if LEFT { w.compose(&x.inverse()) } else { x.inverse().compose(&w) };
    let (a, b) = (w.to_matrix(), z.to_matrix());
    let t = tol(&z);
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            close_i("x+(y-x)=y", i * 4 + j, a[(i, j)], b[(i, j)], t);
        }
    }
    samev("x-x", &x.ominus(&x), &VectorX::zeros(V::DIM));
    mark("reached");
}

/// the derivative of x oplus tau at 0 is the generator on the correct side
fn tangent<V: Sym + MatrixLieGroup>()
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<V::TangentDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::MatrixDim, V::MatrixDim>
        + nalgebra::allocator::Allocator<V::VectorDim, V::TangentDim>
        + nalgebra::allocator::Allocator<V::TangentDim, nalgebra::Const<1>>
        + nalgebra::allocator::Allocator<V::VectorDim, nalgebra::Const<1>>,
{
    let x = V::any("x");
    let t = tau::<6>("tau");
    let m = x.to_matrix();
    let n = m.nrows();
    let p = x.oplus(VectorX::from_column_slice(&t[..V::DIM]).as_view()).to_matrix();
    for k in 0..V::DIM {
        let mut g = vec![0.0; n * n];
        if V::DIM == 1 || (V::DIM == 3 && <V::VectorDim as nalgebra::DimName>::dim() == 2) {
            if k == 0 {
                g[1] = -1.0;
                g[n] = 1.0;
            } else {
                g[(k - 1) * n + 2] = 1.0;
            }
        } else if k < 3 {
            let (a, b) = ((k + 1) % 3, (k + 2) % 3);
            g[a * n + b] = -1.0;
            g[b * n + a] = 1.0;
        } else {
            g[(k - 3) * n + 3] = 1.0;
        }
        for i in 0..n {
            for j in 0..n {
                let mut s = 0.0;
                for l in 0..n {
                    s += if LEFT { g[i * n + l] * m[(l, j)] } else { m[(i, l)] * g[l * n + j] };
                }
                deriv("tangent", (k * 4 + i) * 4 + j, "tau", k, s, p[(i, j)]);
            }
        }
    }
    mark("reached");
}

fn n2(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum()
}

entries! {
    fn defs_so2() { defs::<SO2>() }
    fn defs_se2() { defs::<SE2>() }
    fn defs_so3() { defs::<SO3>() }
    fn defs_se3() { defs::<SE3>() }
    fn defs_vec1() { defs::<VectorVar1>() }
    fn defs_vec2() { defs::<VectorVar2>() }
    fn defs_vec3() { defs::<VectorVar3>() }
    fn defs_vec4() { defs::<VectorVar4>() }
    fn defs_vec5() { defs::<VectorVar5>() }
    fn defs_vec6() { defs::<VectorVar6>() }
    fn defs_bias() { defs::<ImuBias>() }
    fn minus_so2() { defs_minus::<SO2>() }
    fn minus_se2() { defs_minus::<SE2>() }
    fn minus_so3() { defs_minus::<SO3>() }
    fn minus_se3() { defs_minus::<SE3>() }
    fn minus_vec3() { defs_minus::<VectorVar3>() }
    fn minus_bias() { defs_minus::<ImuBias>() }
    fn round_vec1() { vec_round::<VectorVar1>() }
    fn round_vec2() { vec_round::<VectorVar2>() }
    fn round_vec3() { vec_round::<VectorVar3>() }
    fn round_vec4() { vec_round::<VectorVar4>() }
    fn round_vec5() { vec_round::<VectorVar5>() }
    fn round_vec6() { vec_round::<VectorVar6>() }
    fn round_bias() { vec_round::<ImuBias>() }
    fn round_so2() { lie_round::<SO2>(|_| 1e-9) }
    fn round_se2() { lie_round::<SE2>(|z| 1e-6 * (1.0 + n2(&z.parts()[2..]))) }
    fn round_so3() { lie_round::<SO3>(|_| 1e-6) }
    fn round_se3() { lie_round::<SE3>(|z| 1e-5 * (1.0 + n2(&z.parts()[4..]))) }
    fn tangent_so2() { tangent::<SO2>() }
    fn tangent_se2() { tangent::<SE2>() }
    fn tangent_so3() { tangent::<SO3>() }
    fn tangent_se3() { tangent::<SE3>() }
}
