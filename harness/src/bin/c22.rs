//! The optimization loop against every sequence of errors and step outcomes.
#![allow(static_mut_refs)]
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linear::*;
use factrs::noise::*;
use factrs::optimizers::*;
use factrs::residuals::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
#[path = "../opt.rs"]
mod opt;
use lie::*;
use opt::*;

/// the state is the number of completed steps
struct Script {
    params: OptParams,
    fail: [usize; 6],
    idx: Vec<usize>,
    inits: Vec<usize>,
    watch: OptObserverVec<usize>,
}
impl Optimizer for Script {
    type Input = usize;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn step(&mut self, v: usize, idx: usize) -> OptResult<usize> {
        self.idx.push(idx);
        match self.fail[v] {
            1 => Err(OptError::FailedToStep),
            2 => Err(OptError::InvalidSystem),
            _ => {
                self.watch.notify(&(v + 1), idx);
                Ok(v + 1)
            }
        }
    }
    fn error(&self, v: &usize) -> f64 {
        any_i_in("e", *v, 0.0, 1e9)
    }
    fn init(&mut self, v: &usize) {
        self.inits.push(*v);
    }
}
static mut SEEN: Vec<(usize, usize, f64)> = vec![];
struct Watch(usize);
impl OptObserver for Watch {
    type Input = usize;
    fn on_step(&self, v: &usize, t: f64) {
        unsafe { SEEN.push((self.0, *v, t)) }
    }
}
#[derive(PartialEq)]
enum Want {
    Done(usize),
    Limit(usize),
    Failed,
    Invalid,
}
fn script(max: usize) {
    unsafe { SEEN.clear() };
    let m = choice("max", max + 1);
    let fail = core::array::from_fn(|i| if i < m { choice_i("fail", i, 3) } else { 0 });
    let (rel, abs, tol) = (any_in("rel", 0.0, 10.0), any_in("abs", 0.0, 1e9), any_in("tol", 0.0, 1e9));
    let mut o = Script {
        params: OptParams { max_iterations: m, error_tol_relative: rel, error_tol_absolute: abs, error_tol: tol },
        fail,
        idx: vec![],
        inits: vec![],
        watch: OptObserverVec::default(),
    };
    o.watch.add(Watch(0));
    o.watch.add(Watch(1));
    let got = o.optimize(0);
    // reference
    let e = |i: usize| any_i_in("e", i, 0.0, 1e9);
    let mut done = 0;
    let mut ran = 0;
    let want = if e(0) <= tol {
        Want::Done(0)
    } else {
        loop {
            if done == m {
                break Want::Limit(done);
            }
            ran += 1;
            match fail[done] {
                1 => break Want::Failed,
                2 => break Want::Invalid,
                _ => {}
            }
            done += 1;
            let d = e(done - 1) - e(done);
            if e(done) <= tol || d <= abs || d / e(done - 1) <= rel {
                break Want::Done(done);
            }
        }
    };
    let got = match got {
        Ok(v) => Want::Done(v),
        Err(OptError::MaxIterations(v)) => Want::Limit(v),
        Err(OptError::FailedToStep) => Want::Failed,
        Err(OptError::InvalidSystem) => Want::Invalid,
    };
    let code = |w: &Want| match w {
        Want::Done(v) => *v as u64,
        Want::Limit(v) => 100 + *v as u64,
        Want::Failed => 200,
        Want::Invalid => 300,
    };
    ieq("outcome", code(&got), code(&want));
    ieq("inits", o.inits.len() as u64, 1);
    ieq("init with the initial values", o.inits[0] as u64, 0);
    ieq("steps", o.idx.len() as u64, ran as u64);
    for i in 0..o.idx.len().min(ran) {
        ieq_i("index", i, o.idx[i] as u64, i as u64 + 1);
    }
    // two observers, in the order they were added
    let seen = unsafe { SEEN.clone() };
    ieq("notified", seen.len() as u64, 2 * done as u64);
    for (i, (who, v, t)) in seen.iter().enumerate() {
        ieq_i("observer", i, *who as u64, i as u64 % 2);
        ieq_i("observed values", i, *v as u64, i as u64 / 2 + 1);
        eq_i("observed time", i, *t, (i / 2 + 1) as f64);
    }
    mark("reached");
}

assign_symbols!(X: VectorVar1);
static mut TRAIL: Vec<(f64, f64)> = vec![];
struct Trail;
impl OptObserver for Trail {
    type Input = Values;
    fn on_step(&self, v: &Values, t: f64) {
        unsafe { TRAIL.push((at::<VectorVar1>(v, X(0).into())[0], t)) }
    }
}
fn graph() -> (Graph, Values, f64) {
    let z = any("z");
    let mut g = Graph::new();
    g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar1::new(z)), X(0)).build());
    let mut v = Values::new();
    v.insert(X(0), VectorVar1::any("x"));
    (g, v, z)
}
/// scalar problem with unit weight: every solve moves by (s + t) (z - x)
fn real(lm: bool, m: usize) {
    unsafe {
        TRAIL.clear();
        CALLS = 0;
    }
    let (g, v, z) = graph();
    let x0 = at::<VectorVar1>(&v, X(0).into())[0];
    let p = OptParams { max_iterations: m, error_tol_relative: f64::NEG_INFINITY, error_tol_absolute: f64::NEG_INFINITY, error_tol: -1.0 };
    assume(x0 != z);
    let got = if lm {
        let mut o: LevenMarquardt<Krylov> = LevenMarquardt::new(g);
        o.params_base = p;
        o.params_leven.lambda_max = 0.0;
        o.observers.add(Trail);
        o.optimize(v)
    } else {
        let mut o: GaussNewton<Krylov> = GaussNewton::new(g);
        o.params = p;
        o.observers.add(Trail);
        o.optimize(v)
    };
    let trail = unsafe { TRAIL.clone() };
    // trail of a reference run
    let mut x = x0;
    let mut n = 0;
    let mut lambda = 1e-5;
    while n < m {
        let (s, t) = coef(n);
        let d = if lm { (s + t * (1.0 + lambda)) * (z - x) } else { (s + t) * (z - x) };
        if lm && !((x + d - z) * (x + d - z) < (x - z) * (x - z)) {
            break;
        }
        lambda /= 10.0;
        x += d;
        if n < trail.len() {
            eq_i("trail", n, trail[n].0, x);
            eq_i("time", n, trail[n].1, (n + 1) as f64);
        }
        n += 1;
    }
    ieq("observed", trail.len() as u64, n as u64);
    match got {
        Err(OptError::MaxIterations(v)) if n == m => eq("final", at::<VectorVar1>(&v, X(0).into())[0], x),
        Err(OptError::FailedToStep) if lm && n < m => {}
        _ => holds("outcome", false),
    }
    mark("reached");
}
/// a linear problem is solved by one step and the loop then stops
fn converge() {
    let (g, v, z) = graph();
    let mut o: GaussNewton = GaussNewton::new(g);
    match o.optimize(v.clone()) {
        Ok(r) => {
            let (x0, x) = (at::<VectorVar1>(&v, X(0).into())[0], at::<VectorVar1>(&r, X(0).into())[0]);
            eq("minimum", if x0 == z { z } else { x }, z);
        }
        Err(_) => holds("converged", false),
    }
    mark("reached");
}

entries! {
    fn loop3() { script(3) }
    fn loop4() { script(4) }
    fn t_loop5() { script(5) }
    fn gauss_newton() { real(false, 3) }
    fn levenberg() { real(true, 2) }
    fn converges() { converge() }
}
