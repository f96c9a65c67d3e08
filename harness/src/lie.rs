//! Arbitrary group elements and their comparison, through the public API only.
#![allow(dead_code)]
use factrs::linalg::*;
use factrs::traits::*;
use factrs::residuals::{Accel, Gyro};
use factrs::variables::*;
use harness::*;

pub trait Sym: Variable + Clone {
    /// an arbitrary valid element
    fn any(name: &str) -> Self;
    /// the numbers that make up the element
    fn parts(&self) -> Vec<f64>;
    /// the first four numbers are a quaternion: q and -q are the same rotation
    const QUAT: bool = false;
    /// the element is valid (unit rotations)
    fn closed(_label: &str, _x: &Self) {}
}

pub fn same<V: Sym>(label: &str, a: &V, b: &V) {
    let (p, q) = (a.parts(), b.parts());
    let n = if V::QUAT { 4 } else { 0 };
    for i in 0..n {
        for j in i..n {
            eq_i(label, 10 * (i + 1) + j, p[i] * p[j], q[i] * q[j]);
        }
    }
    for i in n..p.len() {
        eq_i(label, i, p[i], q[i]);
    }
}

pub fn nm(a: &str, b: &str) -> String {
    let mut s = String::with_capacity(a.len() + b.len());
    s.push_str(a);
    s.push_str(b);
    s
}

impl Sym for SO2 {
    fn any(name: &str) -> Self {
        let [a, b] = any_unit::<2>(name);
        SO2::from_matrix(Matrix2::new(a, -b, b, a).as_view())
    }
    fn parts(&self) -> Vec<f64> {
        let m = self.to_matrix();
        vec![m[(0, 0)], m[(1, 0)]]
    }
    fn closed(label: &str, x: &Self) {
        let p = x.parts();
        eq(label, p[0] * p[0] + p[1] * p[1], 1.0);
    }
}

impl Sym for SO3 {
    const QUAT: bool = true;
    fn any(name: &str) -> Self {
        let [x, y, z, w] = any_unit::<4>(name);
        SO3::from_xyzw(x, y, z, w)
    }
    fn parts(&self) -> Vec<f64> {
        vec![self.x(), self.y(), self.z(), self.w()]
    }
    fn closed(label: &str, x: &Self) {
        let p = x.parts();
        eq(label, p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3], 1.0);
    }
}

impl Sym for SE2 {
    fn any(name: &str) -> Self {
        let [a, b] = any_unit::<2>(&nm(name, "_r"));
        let [x, y] = any_n::<2>(&nm(name, "_t"));
        SE2::from_matrix(Matrix3::new(a, -b, x, b, a, y, 0.0, 0.0, 1.0).as_view())
    }
    fn parts(&self) -> Vec<f64> {
        let mut v = self.rot().parts();
        v.push(self.x());
        v.push(self.y());
        v
    }
    fn closed(label: &str, x: &Self) {
        SO2::closed(label, x.rot());
    }
}

impl Sym for SE3 {
    const QUAT: bool = true;
    fn any(name: &str) -> Self {
        let r = SO3::any(&nm(name, "_r"));
        let [x, y, z] = any_n::<3>(&nm(name, "_t"));
        SE3::from_rot_trans(r, Vector3::new(x, y, z))
    }
    fn parts(&self) -> Vec<f64> {
        let mut v = self.rot().parts();
        let t = self.xyz();
        v.extend([t[0], t[1], t[2]]);
        v
    }
    fn closed(label: &str, x: &Self) {
        SO3::closed(label, x.rot());
    }
}

macro_rules! vecvar {
    ($($t:ty, $n:literal, $v:ident);*) => {$(
        impl Sym for $t {
            fn any(name: &str) -> Self {
                let v = any_n::<$n>(name);
                let mut x = $v::zeros();
                for i in 0..$n {
                    x[i] = v[i];
                }
                x.into()
            }
            fn parts(&self) -> Vec<f64> {
                let v: $v = self.clone().into();
                v.iter().copied().collect()
            }
        }
    )*};
}
vecvar!(VectorVar1, 1, Vector1; VectorVar2, 2, Vector2; VectorVar3, 3, Vector3; VectorVar4, 4, Vector4; VectorVar5, 5, Vector5; VectorVar6, 6, Vector6);

impl Sym for ImuBias {
    fn any(name: &str) -> Self {
        let g = any_n::<3>(&nm(name, "_g"));
        let a = any_n::<3>(&nm(name, "_a"));
        ImuBias::new(Gyro::new(g[0], g[1], g[2]), Accel::new(a[0], a[1], a[2]))
    }
    fn parts(&self) -> Vec<f64> {
        let (g, a) = (self.gyro(), self.accel());
        vec![g[0], g[1], g[2], a[0], a[1], a[2]]
    }
}
