//! Reference model of IMU preintegration: the equations of the module documentation.
#![allow(dead_code)]
use crate::lie::*;
use factrs::linalg::*;
use factrs::residuals::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;

pub fn v3(name: &str) -> Vector3 {
    let v = any_n::<3>(name);
    Vector3::new(v[0], v[1], v[2])
}
/// an arbitrary symmetric matrix
pub fn sym3(name: &str) -> Matrix3 {
    let s = any_n::<6>(name);
    Matrix3::new(s[0], s[1], s[2], s[1], s[3], s[4], s[2], s[4], s[5])
}
pub fn params() -> ImuCovariance {
    let mut p = ImuCovariance::default();
    p.cov_accel = sym3("qa");
    p.cov_gyro = sym3("qg");
    p.cov_accel_bias = sym3("qab");
    p.cov_gyro_bias = sym3("qgb");
    p.cov_integration = sym3("qi");
    p.cov_winit = sym3("qw");
    p.cov_ainit = sym3("qn");
    p
}
pub struct Meas {
    pub gyro: Vector3,
    pub accel: Vector3,
    pub dt: f64,
}
pub fn hat(w: &Vector3) -> Matrix3 {
    Matrix3::new(0.0, -w[2], w[1], w[2], 0.0, -w[0], -w[1], w[0], 0.0)
}
/// state of the reference after some steps
#[derive(Clone)]
pub struct Ref {
    pub dt: f64,
    pub th: Vector3,
    pub v: Vector3,
    pub p: Vector3,
    /// derivative with respect to the gyro and to the accelerometer bias
    pub hg: [Matrix3; 3],
    pub ha: [Matrix3; 3],
    pub cov: MatrixX,
}
impl Ref {
    pub fn new() -> Self {
        let z = Matrix3::zeros();
        Ref { dt: 0.0, th: Vector3::zeros(), v: Vector3::zeros(), p: Vector3::zeros(), hg: [z; 3], ha: [z; 3], cov: MatrixX::identity(15, 15) * 1e-14 }
    }
    /// one step; `w`, `a` are the measurements without bias
    pub fn step(&mut self, w: &Vector3, a: &Vector3, dt: f64, q: Option<&ImuCovariance>) {
        let r = SO3::exp(self.th.as_view()).to_matrix();
        let h = SO3::dexp(self.th.as_view());
        let hinv = h.try_inverse().unwrap();
        let i3 = Matrix3::identity();
        for k in 0..9 {
            cut("r", k, r[k]);
            cut("h", k, h[k]);
            cut("hinv", k, hinv[k]);
        }
        // blocks of A
        let tt = i3 - hat(w) * (dt / 2.0);
        let vt = -(r * hat(a) * h) * dt;
        let pt = vt * (dt / 2.0);
        let tg = -hinv * dt;
        let va = -r * dt;
        let pa = va * (dt / 2.0);
        for k in 0..9 {
            cut("tt", k, tt[k]);
            cut("vt", k, vt[k]);
        }
        if let Some(q) = q {
            for k in 0..225 {
                cut("cov", k, self.cov[k]);
            }
            let mut m = MatrixX::identity(15, 15);
            let mut put = |i: usize, j: usize, b: &Matrix3| {
                for x in 0..3 {
                    for y in 0..3 {
                        m[(i + x, j + y)] = b[(x, y)];
                    }
                }
            };
            put(0, 0, &tt);
            put(3, 0, &vt);
            put(6, 0, &pt);
            put(6, 3, &(i3 * dt));
            put(0, 9, &tg);
            put(3, 12, &va);
            put(6, 12, &pa);
            // noise: gyro, accel, gyro bias, accel bias, integration, initial gyro bias, initial accel bias
            let mut b = MatrixX::zeros(15, 21);
            let mut putb = |i: usize, j: usize, s: &Matrix3| {
                for x in 0..3 {
                    for y in 0..3 {
                        b[(i + x, j + y)] = s[(x, y)];
                    }
                }
            };
            putb(0, 0, &-tg);
            putb(3, 3, &-va);
            putb(6, 3, &-pa);
            putb(9, 6, &i3);
            putb(12, 9, &i3);
            putb(6, 12, &i3);
            putb(0, 15, &tg);
            putb(3, 18, &va);
            putb(6, 18, &pa);
            let mut qq = MatrixX::zeros(21, 21);
            for (k, s) in [q.cov_gyro, q.cov_accel, q.cov_gyro_bias, q.cov_accel_bias, q.cov_integration, q.cov_winit, q.cov_ainit].iter().enumerate() {
                for x in 0..3 {
                    for y in 0..3 {
                        qq[(3 * k + x, 3 * k + y)] = s[(x, y)];
                    }
                }
            }
            self.cov = mul(&mul(&m, &self.cov), &m.transpose()) + mul(&mul(&b, &qq), &b.transpose());
        }
        // bias Jacobians
        let (g, n) = (self.hg, self.ha);
        self.hg = [tt * g[0] + tg, vt * g[0] + g[1], pt * g[0] + g[1] * dt + g[2]];
        self.ha = [tt * n[0], vt * n[0] + n[1] + va, pt * n[0] + n[1] * dt + n[2] + pa];
        // deltas
        let aw = SO3::exp(self.th.as_view()).apply(a.as_view());
        self.p = self.p + self.v * dt + aw * (dt * dt / 2.0);
        self.v = self.v + aw * dt;
        self.th = self.th + hinv * w * dt;
        self.dt += dt;
    }
}
/// a product that skips structural zeros
fn mul(a: &MatrixX, b: &MatrixX) -> MatrixX {
    let mut r = MatrixX::zeros(a.nrows(), b.ncols());
    for i in 0..a.nrows() {
        for j in 0..b.ncols() {
            let mut s = 0.0;
            for k in 0..a.ncols() {
                s += a[(i, k)] * b[(k, j)];
            }
            r[(i, j)] = s;
        }
    }
    r
}
/// measurements of `n` steps
pub fn history(n: usize) -> Vec<Meas> {
    (0..n)
        .map(|k| Meas {
            gyro: v3(["w0", "w1", "w2", "w3"][k]),
            accel: v3(["a0", "a1", "a2", "a3"][k]),
            dt: any_in(["dt0", "dt1", "dt2", "dt3"][k], 0.0, 100.0),
        })
        .collect()
}
pub fn gyro(v: &Vector3) -> Gyro {
    Gyro::new(v[0], v[1], v[2])
}
pub fn accel(v: &Vector3) -> Accel {
    Accel::new(v[0], v[1], v[2])
}
