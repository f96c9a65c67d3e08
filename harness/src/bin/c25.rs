//! Conversions to rerun's archetypes, read back.  (built with the `rerun` feature)
use factrs::linalg::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
use rerun::{Arrows2D, Arrows3D, Points2D, Points3D, Rotation3D, Transform3D, Vec2D, Vec3D};
#[path = "../lie.rs"]
mod lie;
use lie::*;

fn all<const N: usize>(label: &str, k: usize, got: [f32; N], want: [f64; N]) {
    for i in 0..N {
        close_i(label, 10 * k + i, got[i] as f64, want[i], 1e-6 * (1.0 + want[i] * want[i]));
    }
}
fn p2(v: &VectorVar2) -> [f64; 2] { [v[0], v[1]] }
fn p3(v: &VectorVar3) -> [f64; 3] { [v[0], v[1], v[2]] }
fn t2(x: &SE2) -> [f64; 2] { let o = x.apply(Vector2::zeros().as_view()); [o[0], o[1]] }
fn t3(x: &SE3) -> [f64; 3] { let o = x.apply(Vector3::zeros().as_view()); [o[0], o[1], o[2]] }
fn e<const N: usize>(k: usize) -> [f64; N] { let mut r = [0.0; N]; r[k] = 1.0; r }
fn axis2(r: &SO2, k: usize) -> [f64; 2] { let u: [f64; 2] = e(k); let v = r.apply(Vector2::new(u[0], u[1]).as_view()); [v[0], v[1]] }
fn axis3(r: &SO3, k: usize) -> [f64; 3] { let u: [f64; 3] = e(k); let v = r.apply(Vector3::new(u[0], u[1], u[2]).as_view()); [v[0], v[1], v[2]] }
/// the quaternion turns the unit vectors as the rotation does (either sign of the quaternion)
fn quat(label: &str, q: [f32; 4], r: &SO3) {
    let q = [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64];
    let w = [r.x(), r.y(), r.z(), r.w()];
    for i in 0..4 {
        for j in i..4 {
            close_i(label, 10 * (i + 1) + j, q[i] * q[j], w[i] * w[j], 1e-6);
        }
    }
}
fn rotation(label: &str, got: Rotation3D, r: &SO3) {
    match got {
        Rotation3D::Quaternion(q) => quat(label, q.0.xyzw(), r),
        Rotation3D::AxisAngle(_) => holds("a quaternion", false),
    }
}
fn arrows2(label: &str, a: &Arrows2D, want: &[SE2], origins: bool) {
    holds("number of arrows", a.vectors.len() == 2 * want.len());
    for (k, x) in want.iter().enumerate() {
        for i in 0..2 {
            all(label, 2 * k + i, a.vectors[2 * k + i].0 .0, axis2(x.rot(), i));
        }
    }
    if origins {
        match &a.origins {
            Some(o) => {
                holds("number of origins", o.len() == 2 * want.len());
                for k in 0..o.len() {
                    all("origin", k, o[k].0 .0, t2(&want[k / 2]));
                }
            }
            None => holds("origins", false),
        }
    }
}
fn arrows3(label: &str, a: &Arrows3D, want: &[SE3], origins: bool) {
    holds("number of arrows", a.vectors.len() == 3 * want.len());
    for (k, x) in want.iter().enumerate() {
        for i in 0..3 {
            all(label, 3 * k + i, a.vectors[3 * k + i].0 .0, axis3(x.rot(), i));
        }
    }
    if origins {
        match &a.origins {
            Some(o) => {
                holds("number of origins", o.len() == 3 * want.len());
                for k in 0..o.len() {
                    all("origin", k, o[k].0 .0, t3(&want[k / 3]));
                }
            }
            None => holds("origins", false),
        }
    }
}
fn points2(label: &str, p: &Points2D, want: &[[f64; 2]]) {
    holds("number of points", p.positions.len() == want.len());
    for k in 0..want.len() {
        all(label, k, p.positions[k].0 .0, want[k]);
    }
}
fn points3(label: &str, p: &Points3D, want: &[[f64; 3]]) {
    holds("number of points", p.positions.len() == want.len());
    for k in 0..want.len() {
        all(label, k, p.positions[k].0 .0, want[k]);
    }
}
fn some<V: Sym>(n: usize) -> Vec<V> {
    (0..n).map(|i| V::any(["a", "b", "c"][i])).collect()
}

entries! {
    fn vector2() {
        let x = VectorVar2::any("x");
        let v: Vec2D = (&x).into();
        all("vec ref", 0, v.0, p2(&x));
        let v: Vec2D = x.clone().into();
        all("vec", 0, v.0, p2(&x));
        points2("point ref", &(&x).into(), &[p2(&x)]);
        points2("point", &x.clone().into(), &[p2(&x)]);
        mark("reached");
    }
    fn vector3() {
        let x = VectorVar3::any("x");
        let v: Vec3D = (&x).into();
        all("vec ref", 0, v.0, p3(&x));
        let v: Vec3D = x.clone().into();
        all("vec", 0, v.0, p3(&x));
        points3("point ref", &(&x).into(), &[p3(&x)]);
        points3("point", &x.clone().into(), &[p3(&x)]);
        mark("reached");
    }
    fn so2() {
        let x = SE2::any("x");
        arrows2("axes ref", &x.rot().into(), &[x.clone()], false);
        arrows2("axes", &x.rot().clone().into(), &[x.clone()], false);
        mark("reached");
    }
    fn se2() {
        let x = SE2::any("x");
        arrows2("axes ref", &(&x).into(), &[x.clone()], true);
        arrows2("axes", &x.clone().into(), &[x.clone()], true);
        points2("point ref", &(&x).into(), &[t2(&x)]);
        points2("point", &x.clone().into(), &[t2(&x)]);
        let v: Vec2D = (&x).into();
        all("vec ref", 0, v.0, t2(&x));
        let v: Vec2D = x.clone().into();
        all("vec", 0, v.0, t2(&x));
        mark("reached");
    }
    fn so3() {
        let x = SE3::any("x");
        rotation("quat ref", x.rot().into(), x.rot());
        rotation("quat", x.rot().clone().into(), x.rot());
        arrows3("axes ref", &x.rot().into(), &[x.clone()], false);
        arrows3("axes", &x.rot().clone().into(), &[x.clone()], false);
        mark("reached");
    }
    fn se3() {
        let x = SE3::any("x");
        for k in 0..2 {
            let t: Transform3D = if k == 0 { (&x).into() } else { x.clone().into() };
            match (&t.translation, &t.quaternion) {
                (Some(p), Some(q)) => {
                    all("translation", k, p.0 .0, t3(&x));
                    quat(["quat ref", "quat"][k], q.0.xyzw(), x.rot());
                }
                _ => holds("translation and rotation", false),
            }
            holds("nothing else", t.scale.is_none() && t.rotation_axis_angle.is_none());
        }
        arrows3("axes ref", &(&x).into(), &[x.clone()], true);
        arrows3("axes", &x.clone().into(), &[x.clone()], true);
        points3("point ref", &(&x).into(), &[t3(&x)]);
        points3("point", &x.clone().into(), &[t3(&x)]);
        let v: Vec3D = (&x).into();
        all("vec ref", 0, v.0, t3(&x));
        let v: Vec3D = x.clone().into();
        all("vec", 0, v.0, t3(&x));
        mark("reached");
    }
    fn gather2() {
        let n = choice("n", 4);
        let xs: Vec<SE2> = some(n);
        arrows2("axes", &xs.iter().collect(), &xs, n > 0);
        points2("points", &xs.iter().collect(), &xs.iter().map(t2).collect::<Vec<_>>());
        let vs: Vec<VectorVar2> = some(n);
        points2("vectors", &vs.iter().collect(), &vs.iter().map(p2).collect::<Vec<_>>());
        mark("reached");
    }
    fn gather3() {
        let n = choice("n", 4);
        let xs: Vec<SE3> = some(n);
        arrows3("axes", &xs.iter().collect(), &xs, n > 0);
        points3("points", &xs.iter().collect(), &xs.iter().map(t3).collect::<Vec<_>>());
        let vs: Vec<VectorVar3> = some(n);
        points3("vectors", &vs.iter().collect(), &vs.iter().map(p3).collect::<Vec<_>>());
        mark("reached");
    }
}
