//! Robust kernels: documented loss, weight = rho'(d)/d, bounds.
use factrs::robust::*;
use harness::*;

fn weight_is_derivative(r: &dyn RobustCost, d2: f64) {
    // rho(d^2): d rho/d(d2) = rho'(d)/(2d)
    let [t] = tau::<1>("tau");
    deriv("weight is the derivative", 0, "tau", 0, r.weight(d2) * 0.5, r.loss(d2 + t));
}
/// the constants of the default kernels are rounded when they are folded
fn default_derivative(r: &dyn RobustCost, d2: f64) {
    let [t] = tau::<1>("tau");
    deriv_close("weight is the derivative", 0, "tau", 0, r.weight(d2) * 0.5, r.loss(d2 + t), 1e-9);
}
fn common(r: &dyn RobustCost, d2: f64, monotone: bool) {
    eq("zero at zero", r.loss(0.0), 0.0);
    holds("loss not negative", r.loss(d2) >= 0.0);
    let w = r.weight(d2);
    holds("weight not negative", w >= 0.0);
    if monotone {
        holds("weight at most one", w <= 1.0);
        let h = any("h");
        assume(h >= 0.0);
        holds("weight not increasing", r.weight(d2 + h) <= w);
        eq("weight one at zero", r.weight(0.0), 1.0);
    }
}
fn pos(name: &str) -> f64 {
    let c = any(name);
    assume(c > 0.0);
    c
}
fn nonneg(name: &str) -> f64 {
    let c = any(name);
    assume(c >= 0.0);
    c
}

entries! {
    fn l2() {
        let d = nonneg("d");
        eq("loss", L2.loss(d * d), d * d / 2.0);
        eq("loss_default", L2::default().loss(d * d), d * d / 2.0);
        let d2 = nonneg("d2");
        weight_is_derivative(&L2, d2);
        common(&L2, d2, true);
        mark("reached");
    }
    fn l1() {
        let d = nonneg("d");
        eq("loss", L1.loss(d * d), d);
        let d2 = nonneg("d2");
        assume(d2 > 1e-3);
        weight_is_derivative(&L1, d2);
        mark("reached");
    }
    fn l1_small() {
        let d2 = nonneg("d2");
        common(&L1, d2, false);
        let e2 = nonneg("e2");
        assume(e2 <= 1e-3);
        eq("guarded weight", L1.weight(e2), 1.0);
        mark("reached");
    }
    fn huber_loss() {
        let (k, d) = (pos("k"), nonneg("d"));
        let want = if d <= k { d * d / 2.0 } else { k * (d - k / 2.0) };
        eq("loss", Huber::new(k).loss(d * d), want);
        mark("reached");
    }
    fn huber() {
        let (k, d2) = (pos("k"), nonneg("d2"));
        weight_is_derivative(&Huber::new(k), d2);
        mark("reached");
    }
    fn huber_common() {
        let (k, d2) = (pos("k"), nonneg("d2"));
        common(&Huber::new(k), d2, true);
        mark("reached");
    }
    fn fair_loss() {
        let (c, d) = (pos("c"), nonneg("d"));
        eq("loss", Fair::new(c).loss(d * d), c * c * (d / c - (1.0 + d / c).ln()));
        eq("weight", Fair::new(c).weight(d * d), 1.0 / (1.0 + d / c));
        mark("reached");
    }
    fn fair() {
        let (c, d2) = (pos("c"), pos("d2"));
        weight_is_derivative(&Fair::new(c), d2);
        mark("reached");
    }
    fn fair_common() {
        let (c, d2) = (pos("c"), nonneg("d2"));
        common(&Fair::new(c), d2, true);
        mark("reached");
    }
    fn cauchy() {
        let (c, d2) = (pos("c"), nonneg("d2"));
        let r = Cauchy::new(c);
        eq("loss", r.loss(d2), c * c / 2.0 * (1.0 + d2 / (c * c)).ln());
        weight_is_derivative(&r, d2);
        common(&r, d2, true);
        mark("reached");
    }
    fn geman() {
        let (c, d2) = (pos("c"), nonneg("d2"));
        let r = GemanMcClure::new(c);
        eq("loss", r.loss(d2), c * c * d2 / 2.0 / (c * c + d2));
        weight_is_derivative(&r, d2);
        common(&r, d2, true);
        mark("reached");
    }
    fn welsch() {
        let (c, d2) = (pos("c"), nonneg("d2"));
        let r = Welsch::new(c);
        eq("loss", r.loss(d2), c * c / 2.0 * (1.0 - (-d2 / (c * c)).exp()));
        weight_is_derivative(&r, d2);
        common(&r, d2, true);
        mark("reached");
    }
    fn tukey() {
        let (c, d2) = (pos("c"), nonneg("d2"));
        let r = Tukey::new(c);
        let u = 1.0 - d2 / (c * c);
        let want = if d2 <= c * c { c * c / 6.0 * (1.0 - u * u * u) } else { c * c / 6.0 };
        eq("loss", r.loss(d2), want);
        weight_is_derivative(&r, d2);
        mark("reached");
    }
    fn tukey_common() {
        let (c, d2) = (pos("c"), nonneg("d2"));
        common(&Tukey::new(c), d2, true);
        mark("reached");
    }
    fn defaults() {
        // the default kernels obey the same relations
        let d2 = pos("d2");
        match choice("kernel", 6) {
            // 1.345^2 is rounded in one branch condition and not in the other
            0 => { assume((d2 - 1.345 * 1.345).abs() > 1e-9); let r = Huber::default(); default_derivative(&r, d2); common(&r, d2, true); }
            1 => { let r = Fair::default(); default_derivative(&r, d2); common(&r, d2, true); }
            2 => { let r = Cauchy::default(); default_derivative(&r, d2); common(&r, d2, true); }
            3 => { let r = GemanMcClure::default(); default_derivative(&r, d2); common(&r, d2, true); }
            4 => { let r = Welsch::default(); default_derivative(&r, d2); common(&r, d2, true); }
            _ => { let r = Tukey::default(); default_derivative(&r, d2); common(&r, d2, true); }
        }
        mark("reached");
    }
}
