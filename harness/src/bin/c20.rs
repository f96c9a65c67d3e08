//! One Gauss-Newton step against the normal equations.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linalg::*;
use factrs::linear::*;
use factrs::noise::*;
use factrs::optimizers::*;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
#[path = "../opt.rs"]
mod opt;
use lie::*;
use opt::*;

assign_symbols!(X: VectorVar1; Y: VectorVar2; P: SE2; Q: SO2; R: SO3);

fn v1(x: f64) -> VectorVar1 {
    VectorVar1::new(x)
}
fn prior1(g: &mut Graph, k: u64, name: &str) -> (f64, f64) {
    let (z, s) = (any(&nm("z", name)), any_in(&nm("s", name), 0.0, 1e6));
    g.add_factor(FactorBuilder::new1(PriorResidual::new(v1(z)), X(k)).noise(GaussianNoise::from_scalar_sigma(s)).build());
    (z, 1.0 / (s * s))
}
fn between1(g: &mut Graph, a: u64, b: u64, name: &str) -> (f64, f64) {
    let (z, s) = (any(&nm("z", name)), any_in(&nm("s", name), 0.0, 1e6));
    g.add_factor(FactorBuilder::new2(BetweenResidual::new(v1(z)), X(a), X(b)).noise(GaussianNoise::from_scalar_sigma(s)).build());
    (z, 1.0 / (s * s))
}
/// a problem over scalars: priors (variable, z, w) and differences (a, b, z, w)
#[derive(Default)]
struct Lin {
    n: usize,
    priors: Vec<(usize, f64, f64)>,
    diffs: Vec<(usize, usize, f64, f64)>,
}
impl Lin {
    /// derivative of the weighted sum of squares
    fn gradient(&self, x: &[f64]) -> Vec<f64> {
        let mut g = vec![0.0; self.n];
        for &(i, z, w) in &self.priors {
            g[i] += w * (x[i] - z);
        }
        for &(a, b, z, w) in &self.diffs {
            let r = w * (x[b] - x[a] - z);
            g[b] += r;
            g[a] -= r;
        }
        g
    }
}
fn problem(n: usize, priors: &[usize], diffs: &[(usize, usize)]) -> (Graph, Lin) {
    let mut g = Graph::new();
    let mut l = Lin { n, ..Default::default() };
    for (k, &i) in priors.iter().enumerate() {
        let (z, w) = prior1(&mut g, i as u64, ["p0", "p1", "p2"][k]);
        l.priors.push((i, z, w));
    }
    for (k, &(a, b)) in diffs.iter().enumerate() {
        let (z, w) = between1(&mut g, a as u64, b as u64, ["d0", "d1", "d2", "d3"][k]);
        l.diffs.push((a, b, z, w));
    }
    (g, l)
}
fn start(order: &[usize], name: &str) -> Values {
    let mut v = Values::new();
    for &i in order {
        v.insert(X(i as u64), v1(any_i(name, i)));
    }
    v
}
fn optimum(label: &str, l: &Lin, v: &Values) {
    let x: Vec<f64> = (0..l.n).map(|i| at::<VectorVar1>(v, X(i as u64).into())[0]).collect();
    for (i, g) in l.gradient(&x).into_iter().enumerate() {
        eq_i(label, i, g, 0.0);
    }
}
fn linear<S: LinearSolver>(n: usize, priors: &[usize], diffs: &[(usize, usize)], seeds: usize) {
    seed(choice("seed", seeds));
    let (g, l) = problem(n, priors, diffs);
    let order: Vec<usize> = (0..n).collect();
    let v = start(&order, "x");
    let mut o: GaussNewton<S> = GaussNewton::new(g);
    o.init(&v);
    match o.step(v, 1) {
        Ok(v) => optimum("optimum", &l, &v),
        Err(_) => holds("ok", false),
    }
    mark("reached");
}
/// a second set of values, with another order of variables, on the same optimizer
fn reuse<S: LinearSolver>(n: usize, priors: &[usize], diffs: &[(usize, usize)], seeds: usize) {
    seed(3);
    let (g, l) = problem(n, priors, diffs);
    let order: Vec<usize> = (0..n).collect();
    let mut o: GaussNewton<S> = GaussNewton::new(g);
    let v = start(&order, "x");
    o.init(&v);
    let _ = o.step(v, 1);
    seed(choice("seed", seeds));
    let rev: Vec<usize> = (0..n).rev().collect();
    let v = start(&rev, "y");
    // the pattern of a problem does not depend on the order of its values
    if choice("init", 2) == 0 {
        o.init(&v);
    }
    match o.step(v, 1) {
        Ok(v) => optimum("optimum", &l, &v),
        Err(_) => holds("ok", false),
    }
    mark("reached");
}
/// two steps from the same linearization point structure
fn twice() {
    let (g, l) = problem(2, &[0], &[(0, 1)]);
    let mut o: GaussNewton = GaussNewton::new(g);
    let v = start(&[0, 1], "x");
    o.init(&v);
    let v = o.step(v, 1).unwrap();
    optimum("first", &l, &v);
    let v = o.step(v, 2).unwrap();
    optimum("second", &l, &v);
    mark("reached");
}
fn run(label: &str, g: Graph, g2: &Graph, v: Values, keys: &[Key], dims: &[usize], check: &dyn Fn(&str, &Values, &Values, usize, &[f64])) {
    unsafe { CALLS = 0 };
    let mut o: GaussNewton<Krylov> = GaussNewton::new(g);
    let n = normal(g2, &v, keys, dims);
    let old = v.clone();
    o.init(&v);
    let new = match o.step(v, 1) {
        Ok(v) => v,
        Err(_) => {
            holds("ok", false);
            return;
        }
    };
    ieq("solves", unsafe { CALLS } as u64, 1);
    ieq("len", new.len() as u64, keys.len() as u64);
    let (s, t) = coef(0);
    let dx = n.krylov(s, t, 0.0, false);
    for i in 0..keys.len() {
        check(label, &new, &old, i, &dx[n.at[i]..]);
    }
    mark("reached");
}
/// every z is x*g for some g
fn one_se2() {
    let x = SE2::any("x0");
    let z = x.compose(&SE2::any("g0"));
    let mk = || {
        let mut g = Graph::new();
        g.add_factor(FactorBuilder::new1(PriorResidual::new(z.clone()), P(4)).noise(sigma::<3>("s0")).build());
        g
    };
    let mut v = Values::new();
    v.insert(P(4), x.clone());
    run("se2", mk(), &mk(), v, &[P(4).into()], &[3], &|l, n, o, _, d| moved::<SE2>(l, n, o, P(4).into(), d));
}
fn mixed() {
    let mk = || {
        let mut g = Graph::new();
        g.add_factor(FactorBuilder::new1(PriorResidual::new(SO2::any("z0")), Q(0)).noise(sigma::<1>("s0")).build());
        g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar2::any("z1")), Y(7)).noise(sigma::<2>("s1")).robust(Huber::new(1.5)).build());
        g.add_factor(FactorBuilder::new1(PriorResidual::new(SO3::any("z2")), R(1)).build());
        g.add_factor(FactorBuilder::new2(BetweenResidual::new(SO2::any("z3")), Q(0), Q(5)).robust(Cauchy::new(0.5)).build());
        g
    };
    let mut v = Values::new();
    v.insert(R(1), SO3::any("x2"));
    v.insert(Q(0), SO2::any("x0"));
    v.insert(Y(7), VectorVar2::any("x1"));
    v.insert(Q(5), SO2::any("x3"));
    let keys: [Key; 4] = [Q(0).into(), Y(7).into(), R(1).into(), Q(5).into()];
    run("mixed", mk(), &mk(), v, &keys, &[1, 2, 3, 1], &|l, n, o, i, d| match i {
        1 => moved::<VectorVar2>(l, n, o, keys[i], d),
        2 => moved::<SO3>(l, n, o, keys[i], d),
        _ => moved::<SO2>(l, n, o, keys[i], d),
    });
}
entries! {
    fn scalar() { linear::<CholeskySolver>(1, &[0], &[], 1) }
    fn scalar_two_priors() { linear::<CholeskySolver>(1, &[0, 0], &[], 1) }
    fn pair() { linear::<CholeskySolver>(2, &[0], &[(0, 1)], 2) }
    fn pair_loop() { linear::<CholeskySolver>(2, &[0, 1], &[(0, 1), (1, 0)], 2) }
    fn chain3() { linear::<CholeskySolver>(3, &[0], &[(0, 1), (1, 2)], 6) }
    fn loop3() { linear::<CholeskySolver>(3, &[0], &[(0, 1), (1, 2), (2, 0)], 3) }
    fn pair_lu() { linear::<LUSolver>(2, &[0], &[(0, 1)], 2) }
    fn scalar_qr() { linear::<QRSolver>(1, &[0], &[], 1) }
    fn again3() { reuse::<CholeskySolver>(3, &[0], &[(0, 1), (1, 2)], 8) }
    fn again_qr() { reuse::<QRSolver>(1, &[0], &[], 1) }
    fn chain3_lu() { linear::<LUSolver>(3, &[0], &[(0, 1), (1, 2)], 2) }
    fn square4() { linear::<CholeskySolver>(4, &[0], &[(0, 1), (1, 2), (2, 3), (3, 0)], 8) }
    fn t_loop5() { linear::<CholeskySolver>(5, &[0], &[(0, 1), (1, 2), (2, 3), (3, 4)], 6) }
    fn repeat() { twice() }
    fn krylov_se2() { one_se2() }
    fn krylov_mixed() { mixed() }
}
