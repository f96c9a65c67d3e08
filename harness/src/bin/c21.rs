//! Levenberg-Marquardt: damped systems, acceptance and the damping sequence.
#![allow(static_mut_refs)]
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linalg::*;
use factrs::linear::*;
use factrs::noise::*;
use factrs::optimizers::*;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
#[path = "../opt.rs"]
mod opt;
use lie::*;
use opt::*;

assign_symbols!(X: VectorVar1; Y: VectorVar2; Q: SO2);

const L0: f64 = 1e-5;

struct Case {
    g: Graph,
    g2: Graph,
    v: Values,
    keys: Vec<Key>,
    dims: Vec<usize>,
    check: fn(&str, &Values, &Values, usize, Key, &[f64]),
}
fn case(which: usize) -> Case {
    let mk = || {
        let mut g = Graph::new();
        match which {
            0 => {
                g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar1::any("z0")), X(3)).noise(sigma::<1>("s0")).build());
            }
            1 => {
                g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar1::any("z0")), X(3)).noise(sigma::<1>("s0")).build());
                g.add_factor(FactorBuilder::new2(BetweenResidual::new(VectorVar1::any("z1")), X(3), X(1)).noise(sigma::<1>("s1")).build());
            }
            2 => {
                g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar2::any("z0")), Y(0)).noise(sigma::<2>("s0")).robust(Cauchy::new(1.5)).build());
            }
            _ => {
                g.add_factor(FactorBuilder::new1(PriorResidual::new(SO2::any("z0")), Q(2)).noise(sigma::<1>("s0")).build());
                g.add_factor(FactorBuilder::new2(BetweenResidual::new(SO2::any("z1")), Q(2), Q(9)).build());
            }
        }
        g
    };
    let mut v = Values::new();
    fn v1(l: &str, n: &Values, o: &Values, _: usize, k: Key, d: &[f64]) {
        moved::<VectorVar1>(l, n, o, k, d)
    }
    fn v2(l: &str, n: &Values, o: &Values, _: usize, k: Key, d: &[f64]) {
        moved::<VectorVar2>(l, n, o, k, d)
    }
    fn so2(l: &str, n: &Values, o: &Values, _: usize, k: Key, d: &[f64]) {
        moved::<SO2>(l, n, o, k, d)
    }
    let (keys, dims, check): (Vec<Key>, Vec<usize>, fn(&str, &Values, &Values, usize, Key, &[f64])) = match which {
        0 => {
            v.insert(X(3), VectorVar1::any("x0"));
            (vec![X(3).into()], vec![1], v1)
        }
        1 => {
            v.insert(X(1), VectorVar1::any("x1"));
            v.insert(X(3), VectorVar1::any("x0"));
            (vec![X(3).into(), X(1).into()], vec![1, 1], v1)
        }
        2 => {
            v.insert(Y(0), VectorVar2::any("x0"));
            (vec![Y(0).into()], vec![2], v2)
        }
        _ => {
            v.insert(Q(9), SO2::any("x1"));
            v.insert(Q(2), SO2::any("x0"));
            (vec![Q(2).into(), Q(9).into()], vec![1, 1], so2)
        }
    };
    Case { g: mk(), g2: mk(), v, keys, dims, check }
}
/// `steps` steps with a solver of arbitrary answers; at most `trials` trials each
fn damping(which: usize, diagonal: bool, steps: usize, trials: usize) {
    unsafe { CALLS = 0 };
    let c = case(which);
    let mut o: LevenMarquardt<Krylov> = LevenMarquardt::new(c.g);
    let f = any_in("factor", 1.0, 1e3);
    let (lo, hi) = (any_in("lmin", 0.0, 1e3), any_in("lmax", 0.0, 1e6));
    o.params_leven.lambda_factor = f;
    o.params_leven.lambda_min = lo;
    o.params_leven.lambda_max = hi;
    o.params_leven.diagonal_damping = diagonal;
    // bound of this harness: the maximum is exceeded after at most `trials` trials of any step
    let mut top = L0;
    for _ in 0..trials + 1 - steps {
        top *= f;
    }
    assume(top > hi);
    let mut lambda = L0;
    let mut v = c.v;
    o.init(&v);
    let mut call = 0;
    for k in 0..steps {
        let n = normal(&c.g2, &v, &c.keys, &c.dims);
        let zero = vec![0.0; n.n];
        let e0 = n.error(&zero);
        let old = v.clone();
        let got = o.step(v, k + 1);
        // reference
        let mut accepted = None;
        loop {
            let (s, t) = coef(call);
            call += 1;
            let dx = n.krylov(s, t, lambda, diagonal);
            if n.error(&dx) < e0 {
                accepted = Some(dx);
                break;
            }
            lambda *= f;
            if lambda > hi {
                break;
            }
        }
        ieq_i("trials", k, unsafe { CALLS } as u64, call as u64);
        match (got, accepted) {
            (Ok(new), Some(dx)) => {
                for i in 0..c.keys.len() {
                    (c.check)("moved", &new, &old, i, c.keys[i], &dx[n.at[i]..]);
                }
                lambda /= f;
                if lambda < lo {
                    lambda = lo;
                }
                v = new;
            }
            (Err(OptError::FailedToStep), None) => {
                mark("gave up");
                break;
            }
            (Ok(_), None) => {
                holds("accepted without decrease", false);
                return;
            }
            _ => {
                holds("rejected with decrease", false);
                return;
            }
        }
    }
    mark("reached");
}
/// with the real solver: the damped normal equations hold and the error of a linear problem falls
fn solved(which: usize, diagonal: bool, steps: usize) {
    let c = case(which);
    let mut o: LevenMarquardt = LevenMarquardt::new(c.g);
    o.params_leven.diagonal_damping = diagonal;
    let mut v = c.v;
    o.init(&v);
    let mut lambda = L0;
    for k in 0..steps {
        let n = normal(&c.g2, &v, &c.keys, &c.dims);
        let x0: Vec<f64> = c.keys.iter().map(|k| at::<VectorVar1>(&v, *k)[0]).collect();
        let e0 = c.g2.error(&v);
        // not stationary
        assume(n.g.iter().any(|g| *g != 0.0));
        match o.step(v, k + 1) {
            Ok(new) => {
                let x1: Vec<f64> = c.keys.iter().map(|k| at::<VectorVar1>(&new, *k)[0]).collect();
                for i in 0..n.n {
                    let mut s = lambda * (if diagonal { n.h[(i, i)] } else { 1.0 }) * (x1[i] - x0[i]);
                    for j in 0..n.n {
                        s += n.h[(i, j)] * (x1[j] - x0[j]);
                    }
                    eq_i("damped", k * 10 + i, s, n.g[i]);
                }
                holds_i("decreases", k, c.g2.error(&new) < e0);
                v = new;
            }
            Err(_) => {
                holds_i("stepped", k, false);
                return;
            }
        }
        lambda /= 10.0;
    }
    mark("reached");
}
/// at a minimum no step can decrease the error: the optimizer reports it
fn stationary() {
    let z = VectorVar1::any("z0");
    let d = any("d");
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar1::new(z[0] + d)), X(3)).build());
    g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar1::new(z[0] - d)), X(3)).build());
    let mut v = Values::new();
    v.insert(X(3), z);
    let mut o: LevenMarquardt = LevenMarquardt::new(g);
    o.init(&v);
    holds("no step", matches!(o.step(v, 1), Err(OptError::FailedToStep)));
    mark("reached");
}

/// the optimizer is used again for values whose variables come in another order
fn reuse(seeds: usize) {
    let z: Vec<f64> = (0..3).map(|i| any_i("z", i)).collect();
    let w: Vec<f64> = (0..3).map(|i| any_i_in("s", i, 0.0, 1e6)).collect();
    let mk = || {
        let mut g = Graph::new();
        g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar1::new(z[0])), X(0)).noise(GaussianNoise::from_scalar_sigma(w[0])).build());
        g.add_factor(FactorBuilder::new2(BetweenResidual::new(VectorVar1::new(z[1])), X(0), X(1)).noise(GaussianNoise::from_scalar_sigma(w[1])).build());
        g.add_factor(FactorBuilder::new2(BetweenResidual::new(VectorVar1::new(z[2])), X(1), X(2)).noise(GaussianNoise::from_scalar_sigma(w[2])).build());
        g
    };
    let keys: Vec<Key> = (0..3).map(|i| X(i).into()).collect();
    let mut o: LevenMarquardt = LevenMarquardt::new(mk());
    let mut lambda = L0;
    for round in 0..2 {
        seed(if round == 0 { 3 } else { choice("seed", seeds) });
        let mut v = Values::new();
        for i in 0..3u64 {
            let i = if round == 0 { i } else { 2 - i };
            v.insert(X(i), VectorVar1::new(any_i(["x", "y"][round], i as usize)));
        }
        let n = normal(&mk(), &v, &keys, &[1, 1, 1]);
        assume(n.g[2] != 0.0);
        if round == 0 || choice("init", 2) == 0 {
            o.init(&v);
        }
        let x0: Vec<f64> = keys.iter().map(|k| at::<VectorVar1>(&v, *k)[0]).collect();
        match o.step(v, 1) {
            Ok(new) => {
                let x1: Vec<f64> = keys.iter().map(|k| at::<VectorVar1>(&new, *k)[0]).collect();
                for i in 0..3 {
                    let mut s = lambda * n.h[(i, i)] * (x1[i] - x0[i]);
                    for j in 0..3 {
                        s += n.h[(i, j)] * (x1[j] - x0[j]);
                    }
                    eq_i("damped", round * 10 + i, s, n.g[i]);
                }
            }
            Err(_) => {
                holds_i("stepped", round, false);
                return;
            }
        }
        lambda /= 10.0;
    }
    mark("reached");
}

entries! {
    fn again3() { reuse(4) }
    fn scalar_diag() { damping(0, true, 1, 3) }
    fn scalar_identity() { damping(0, false, 1, 3) }
    fn scalar_two_steps() { damping(0, true, 2, 2) }
    fn pair_diag() { damping(1, true, 1, 2) }
    fn pair_identity() { damping(1, false, 1, 2) }
    fn robust_diag() { damping(2, true, 1, 2) }
    fn robust_identity() { damping(2, false, 1, 2) }
    fn so2_diag() { damping(3, true, 1, 2) }
    fn real_scalar() { solved(0, true, 2) }
    fn real_scalar_identity() { solved(0, false, 2) }
    fn real_pair() { solved(1, true, 1) }
    fn real_pair_identity() { solved(1, false, 1) }
    fn no_progress() { stationary() }
}
