//! IMU preintegration: deltas, bias correction, prediction and residual against the documented model.
#![allow(unused_imports)]
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linalg::*;
use factrs::noise::*;
use factrs::residuals::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../imu.rs"]
mod imu;
#[path = "../lie.rs"]
mod lie;
use imu::*;
use lie::*;

const KEYS: [Key; 6] = [Key(5), Key(3), Key(11), Key(2), Key(7), Key(1)];

struct States {
    x1: SE3,
    v1: VectorVar3,
    b1: ImuBias,
    x2: SE3,
    v2: VectorVar3,
    b2: ImuBias,
}
impl States {
    fn any() -> Self {
        States { x1: SE3::any("x1"), v1: VectorVar3::any("v1"), b1: ImuBias::any("b1"), x2: SE3::any("x2"), v2: VectorVar3::any("v2"), b2: ImuBias::any("b2") }
    }
    fn values(&self) -> Values {
        let mut v = Values::new();
        v.insert_unchecked(KEYS[0], self.x1.clone());
        v.insert_unchecked(KEYS[1], self.v1.clone());
        v.insert_unchecked(KEYS[2], self.b1.clone());
        v.insert_unchecked(KEYS[3], self.x2.clone());
        v.insert_unchecked(KEYS[4], self.v2.clone());
        v.insert_unchecked(KEYS[5], self.b2.clone());
        v
    }
    fn moved(&self, t: &[f64]) -> Self {
        fn m<V: Variable>(x: &V, t: &[f64]) -> V {
            x.oplus(VectorX::from_column_slice(t).as_view())
        }
        States { x1: m(&self.x1, &t[0..6]), v1: m(&self.v1, &t[6..9]), b1: m(&self.b1, &t[9..15]), x2: m(&self.x2, &t[15..21]), v2: m(&self.v2, &t[21..24]), b2: m(&self.b2, &t[24..30]) }
    }
    fn v1(&self) -> Vector3 {
        self.v1.clone().into()
    }
    fn v2(&self) -> Vector3 {
        self.v2.clone().into()
    }
}
struct Model {
    r: Ref,
    b0: ImuBias,
    g: Vector3,
}
impl Model {
    /// deltas corrected for the bias of the first state
    fn corrected(&self, s: &States) -> (Vector3, Vector3, Vector3) {
        let dg = s.b1.gyro() - self.b0.gyro();
        let da = s.b1.accel() - self.b0.accel();
        let c = |k: usize, x: Vector3| x + self.r.hg[k] * dg + self.r.ha[k] * da;
        (c(0, self.r.th), c(1, self.r.v), c(2, self.r.p))
    }
    /// error blocks: rotation, velocity, position, biases
    fn residual(&self, s: &States) -> Vec<f64> {
        let (th, v, p) = self.corrected(s);
        let t = self.r.dt;
        let r1 = s.x1.rot();
        let m = r1.to_matrix();
        let rot = r1.compose(&SO3::exp(th.as_view()));
        let er = s.x2.rot().inverse().compose(&rot).log();
        let ev = s.v1() + self.g * t + m * v - s.v2();
        let ep = s.x1.xyz() + s.v1() * t + self.g * (t * t / 2.0) + m * p - s.x2.xyz();
        let eg = s.b1.gyro() - s.b2.gyro();
        let ea = s.b1.accel() - s.b2.accel();
        let mut out = vec![];
        out.extend(er.iter());
        out.extend(ev.iter());
        out.extend(ep.iter());
        out.extend(eg.iter());
        out.extend(ea.iter());
        out
    }
}

#[cfg(feature = "vf-hooks")]
fn setup(n: usize) -> (ImuPreintegrator, Model) {
    let b0 = ImuBias::any("b0");
    let g = v3("grav");
    let mut pre = ImuPreintegrator::new(ImuCovariance::default(), b0.clone(), Gravity(g));
    let mut r = Ref::new();
    for (k, m) in history(n).into_iter().enumerate() {
        // the integration step is singular at full turns
        if k > 0 {
            assume(r.th.norm_squared() < 9.0);
            if k > 1 {
                assume(SO3::dexp(r.th.as_view()).try_inverse().is_some());
            }
        }
        pre.integrate(&gyro(&m.gyro), &accel(&m.accel), m.dt);
        r.step(&(m.gyro - b0.gyro()), &(m.accel - b0.accel()), m.dt, None);
    }
    (pre, Model { r, b0, g })
}
#[cfg(feature = "vf-hooks")]
fn value(n: usize) {
    let (pre, m) = setup(n);
    let s = States::any();
    let res = pre.vf_residual();
    ieq("dim_in", res.dim_in() as u64, 30);
    ieq("dim_out", res.dim_out() as u64, 15);
    let got = res.residual(&s.values(), &KEYS);
    let want = m.residual(&s);
    ieq("len", got.len() as u64, 15);
    for i in 0..15 {
        eq_i("residual", i, got[i], want[i]);
    }
    mark("reached");
}
/// vanishes at the predicted state
#[cfg(feature = "vf-hooks")]
fn zero(n: usize) {
    let (pre, m) = setup(n);
    let mut s = States::any();
    let (th, v, p) = m.corrected(&s);
    let t = m.r.dt;
    let r1 = s.x1.rot().clone();
    s.x2 = SE3::from_rot_trans(r1.compose(&SO3::exp(th.as_view())), s.x1.xyz() + s.v1() * t + m.g * (t * t / 2.0) + r1.to_matrix() * p);
    let v2 = s.v1() + m.g * t + r1.to_matrix() * v;
    s.v2 = v2.into();
    s.b2 = s.b1.clone();
    let got = pre.vf_residual().residual(&s.values(), &KEYS);
    for i in 0..15 {
        eq_i("zero", i, got[i], 0.0);
    }
    mark("reached");
}
#[cfg(feature = "vf-hooks")]
fn jac(n: usize) {
    let (pre, m) = setup(n);
    let s = States::any();
    let t = tau::<30>("tau");
    let d = pre.vf_residual().residual_jacobian(&s.values(), &KEYS);
    let want = m.residual(&s);
    let moved = m.residual(&s.moved(&t));
    ieq("rows", d.diff.nrows() as u64, 15);
    ieq("cols", d.diff.ncols() as u64, 30);
    for i in 0..15 {
        eq_i("value", i, d.value[i], want[i]);
        for k in 0..30 {
            deriv("jacobian", i * 30 + k, "tau", k, d.diff[(i, k)], moved[i]);
        }
    }
    mark("reached");
}
#[cfg(not(feature = "vf-hooks"))]
fn value(_: usize) {
    mark("reached");
}
#[cfg(not(feature = "vf-hooks"))]
fn zero(_: usize) {
    mark("reached");
}
#[cfg(not(feature = "vf-hooks"))]
fn jac(_: usize) {
    mark("reached");
}

assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);

fn preint(n: usize) -> ImuPreintegrator {
    let b0 = ImuBias::new(Gyro::new(0.01, -0.02, 0.03), Accel::new(0.1, 0.2, -0.3));
    let mut pre = ImuPreintegrator::new(ImuCovariance::default(), b0, Gravity::up());
    for k in 0..n {
        let f = k as f64;
        pre.integrate(&Gyro::new(0.3 + f, -0.5, 0.25), &Accel::new(0.5, 1.0 - f, 9.5), 0.125);
    }
    pre
}
fn keys_of(f: &Factor, want: [Key; 6]) {
    ieq("keys", f.keys().len() as u64, 6);
    for i in 0..6 {
        ieq_i("key", i, f.keys()[i].0, want[i].0);
    }
    ieq("dim_out", f.dim_out() as u64, 15);
}
#[cfg(feature = "vf-hooks")]
fn same_error(f: &Factor, pre: &ImuPreintegrator, at: [Key; 6]) {
    let s = States::any();
    let mut v = Values::new();
    v.insert_unchecked(at[0], s.x1.clone());
    v.insert_unchecked(at[1], s.v1.clone());
    v.insert_unchecked(at[2], s.b1.clone());
    v.insert_unchecked(at[3], s.x2.clone());
    v.insert_unchecked(at[4], s.v2.clone());
    v.insert_unchecked(at[5], s.b2.clone());
    let noise = GaussianNoise::<15>::from_matrix_cov(pre.vf_cov().as_view());
    let w = noise.whiten_vec(pre.vf_residual().residual(&v, &at));
    eq("error", f.error(&v), w.norm_squared() / 2.0);
}
#[cfg(not(feature = "vf-hooks"))]
fn same_error(_: &Factor, _: &ImuPreintegrator, _: [Key; 6]) {}
fn factor(n: usize, checked: bool) {
    let pre = preint(n);
    let at: [Key; 6] = [X(4).into(), V(9).into(), B(1).into(), X(2).into(), V(3).into(), B(6).into()];
    let f = if checked { pre.clone().build(X(4), V(9), B(1), X(2), V(3), B(6)) } else { pre.clone().build_unchecked(X(4), V(9), B(1), X(2), V(3), B(6)) };
    keys_of(&f, at);
    same_error(&f, &pre, at);
    mark("reached");
}
fn helpers() {
    let (u, d) = (Gravity::<f64>::up().0, Gravity::<f64>::down().0);
    let w = v3("w");
    let b = ImuBias::any("b");
    let wu = gyro(&w).remove_bias(&b).0;
    let au = accel(&w).remove_bias(&b).0;
    for i in 0..3 {
        eq_i("up", i, u[i], [0.0, 0.0, 9.81][i]);
        eq_i("down", i, d[i], [0.0, 0.0, -9.81][i]);
        eq_i("gyro", i, wu[i], w[i] - b.gyro()[i]);
        eq_i("accel", i, au[i], w[i] - b.accel()[i]);
    }
    mark("reached");
}

entries! {
    fn value0() { value(0) }
    fn value1() { value(1) }
    fn value2() { value(2) }
    fn t_value3() { value(3) }
    fn zero1() { zero(1) }
    fn zero2() { zero(2) }
    fn jac0() { jac(0) }
    fn jac1() { jac(1) }
    fn t_jac2() { jac(2) }
    fn build2() { factor(2, true) }
    fn unchecked2() { factor(2, false) }
    fn measurements() { helpers() }
}
