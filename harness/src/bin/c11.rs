//! Covariance propagation of the IMU preintegrator against A S A^T + B Q B^T.
use factrs::residuals::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../imu.rs"]
mod imu;
#[path = "../lie.rs"]
mod lie;
use imu::*;
use lie::*;

#[cfg(feature = "vf-hooks")]
fn run(n: usize, p: ImuCovariance) {
    let b0 = ImuBias::any("b0");
    let g = Gravity(v3("grav"));
    let mut pre = ImuPreintegrator::new(p.clone(), b0.clone(), g);
    let mut r = Ref::new();
    for (k, m) in history(n).into_iter().enumerate() {
        // the integration step is singular at full turns
        if k > 0 {
            assume(r.th.norm_squared() < 9.0);
            if k > 1 {
                assume(SO3::dexp(r.th.as_view()).try_inverse().is_some());
            }
        }
        let w = m.gyro - b0.gyro();
        let a = m.accel - b0.accel();
        pre.integrate(&gyro(&m.gyro), &accel(&m.accel), m.dt);
        r.step(&w, &a, m.dt, Some(&p));
    }
    let c = pre.vf_cov();
    for i in 0..15 {
        for j in 0..15 {
            eq_i("cov", i * 100 + j, c[(i, j)], r.cov[(i, j)]);
            // (for longer histories symmetry follows from the equality above)
            if i < j && n < 2 {
                eq_i("symmetric", i * 100 + j, c[(i, j)], c[(j, i)]);
            }
        }
    }
    mark("reached");
}
#[cfg(not(feature = "vf-hooks"))]
fn run(_: usize, _: ImuCovariance) {
    mark("reached");
}

entries! {
    fn steps0() { run(0, params()) }
    fn steps1() { run(1, params()) }
    fn steps2() { run(2, params()) }
    fn t_steps3() { run(3, params()) }
}
