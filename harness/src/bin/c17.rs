//! Values as a typed map: every history of bounded length against a table.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

// two symbols share the type VectorVar2, the third has its own
assign_symbols!(A: VectorVar2; B: VectorVar2; C: SO2);

const K: usize = 3;
fn key(k: usize) -> Key {
    match k {
        0 => A(7).into(),
        1 => B(7).into(),
        _ => C(0).into(),
    }
}
#[derive(Clone)]
enum Cell {
    Empty,
    V2([f64; 2]),
    R([f64; 2]),
    V3([f64; 3]),
}
use Cell::*;
fn so2(p: &[f64; 2]) -> SO2 {
    use factrs::traits::*;
    SO2::from_matrix(factrs::linalg::Matrix2::new(p[0], -p[1], p[1], p[0]).as_view())
}
/// compares the whole map with the table
fn same_map(v: &Values, m: &[Cell; K]) {
    let n = m.iter().filter(|c| !matches!(c, Empty)).count();
    ieq("len", v.len() as u64, n as u64);
    ieq("is empty", v.is_empty() as u64, (n == 0) as u64);
    let mut dim = 0;
    let (mut n2, mut nr, mut n3) = (0, 0, 0);
    for k in 0..K {
        let g2: Option<&VectorVar2> = v.get_unchecked(key(k));
        let gr: Option<&SO2> = v.get_unchecked(key(k));
        let g3: Option<&VectorVar3> = v.get_unchecked(key(k));
        let want = match &m[k] {
            Empty => (0, 0, 0),
            V2(p) => {
                if let Some(x) = g2 {
                    eq_i("value", k * 10, x.0[0], p[0]);
                    eq_i("value", k * 10 + 1, x.0[1], p[1]);
                }
                dim += 2;
                n2 += 1;
                (1, 0, 0)
            }
            R(p) => {
                if let Some(x) = gr {
                    let q = x.parts();
                    eq_i("value", k * 10, q[0], p[0]);
                    eq_i("value", k * 10 + 1, q[1], p[1]);
                }
                dim += 1;
                nr += 1;
                (0, 1, 0)
            }
            V3(p) => {
                if let Some(x) = g3 {
                    for i in 0..3 {
                        eq_i("value", k * 10 + i, x.0[i], p[i]);
                    }
                }
                dim += 3;
                n3 += 1;
                (0, 0, 1)
            }
        };
        ieq_i("is vector2", k, g2.is_some() as u64, want.0);
        ieq_i("is so2", k, gr.is_some() as u64, want.1);
        ieq_i("is vector3", k, g3.is_some() as u64, want.2);
    }
    // typed lookups see the same
    let t = (v.get(A(7)).is_some(), v.get(B(7)).is_some(), v.get(C(0)).is_some());
    ieq("typed a", t.0 as u64, matches!(m[0], V2(_)) as u64);
    ieq("typed b", t.1 as u64, matches!(m[1], V2(_)) as u64);
    ieq("typed c", t.2 as u64, matches!(m[2], R(_)) as u64);
    if let (Some(x), V2(p)) = (v.get(B(7)), &m[1]) {
        eq("typed value", x.0[1], p[1]);
    }
    // keys never stored
    ieq("missing", v.get(A(8)).is_none() as u64, 1);
    ieq("missing c", v.get_unchecked::<_, SO2>(C(7)).is_none() as u64, 1);
    // iteration visits exactly the stored keys
    let mut seen = [0u64; K];
    let mut total = 0;
    let mut sum = 0;
    for (k, x) in v.iter() {
        total += 1;
        sum += x.dim();
        for j in 0..K {
            seen[j] += (*k == key(j)) as u64;
        }
    }
    ieq("iter count", total, n as u64);
    ieq("iter dims", sum as u64, dim as u64);
    for k in 0..K {
        ieq_i("iter key", k, seen[k], !matches!(m[k], Empty) as u64);
    }
    // filtering
    ieq("filter vector2", v.filter::<VectorVar2>().count() as u64, n2);
    ieq("filter so2", v.filter::<SO2>().count() as u64, nr);
    ieq("filter vector3", v.filter::<VectorVar3>().count() as u64, n3);
    let want: f64 = m.iter().map(|c| if let V2(p) = c { p[0] * p[0] + p[1] } else { 0.0 }).sum();
    let got: f64 = v.filter::<VectorVar2>().map(|x| x.0[0] * x.0[0] + x.0[1]).sum();
    eq("filter content", got, want);
}
fn fresh(step: usize, ty: usize) -> Cell {
    let n2 = ["p0", "p1", "p2", "p3", "p4", "p5"][step];
    let nr = ["r0", "r1", "r2", "r3", "r4", "r5"][step];
    match ty {
        0 => V2(any_n::<2>(n2)),
        1 => R(any_unit::<2>(nr)),
        _ => V3(any_n::<3>(n2)),
    }
}
fn old(label: &str, o: Option<Box<dyn VariableSafe>>, c: &Cell) {
    ieq(label, o.is_some() as u64, !matches!(c, Empty) as u64);
    if let (Some(o), V2(p)) = (&o, c) {
        ieq("old type", o.downcast_ref::<VectorVar2>().is_some() as u64, 1);
        if let Some(x) = o.downcast_ref::<VectorVar2>() {
            eq("old value", x.0[0], p[0]);
        }
    }
    if let (Some(o), R(p)) = (&o, c) {
        ieq("old type r", o.downcast_ref::<SO2>().is_some() as u64, 1);
        if let Some(x) = o.downcast_ref::<SO2>() {
            eq("old value r", x.parts()[1], p[1]);
        }
    }
}
fn put(v: &mut Values, k: usize, c: &Cell) -> Option<Box<dyn VariableSafe>> {
    match c {
        V2(p) => v.insert_unchecked(key(k), VectorVar2::new(p[0], p[1])),
        R(p) => v.insert_unchecked(key(k), so2(p)),
        V3(p) => v.insert_unchecked(key(k), VectorVar3::new(p[0], p[1], p[2])),
        Empty => None,
    }
}
const OPS: usize = 14;
fn apply(v: &mut Values, m: &mut [Cell; K], step: usize, op: usize) {
    match op {
        // insert of either type under any key, replacing what is there
        0..=5 => {
            let (k, ty) = (op / 2, op % 2);
            let c = fresh(step, ty);
            let o = put(v, k, &c);
            old("insert returns", o, &m[k]);
            m[k] = c;
        }
        // typed insert
        6 => {
            let c = fresh(step, 0);
            if let V2(p) = &c {
                let o = v.insert(A(7), VectorVar2::new(p[0], p[1]));
                old("typed insert returns", o, &m[0]);
            }
            m[0] = c;
        }
        // typed removal: only what has the symbol's type comes back
        7 => {
            if matches!(m[0], Empty | V2(_)) {
                let r: Option<VectorVar2> = v.remove(A(7));
                ieq("remove a", r.is_some() as u64, matches!(m[0], V2(_)) as u64);
                if let (Some(x), V2(p)) = (r, &m[0]) {
                    eq("removed", x.0[0], p[0]);
                    eq("removed 1", x.0[1], p[1]);
                }
                m[0] = Empty;
            } else {
                // what happens to an element of another type is not specified
                let r: Option<VectorVar2> = v.clone().remove(A(7));
                ieq("remove wrong type", r.is_none() as u64, 1);
            }
        }
        8 => {
            if matches!(m[2], Empty | R(_)) {
                let r: Option<SO2> = v.remove(C(0));
                ieq("remove c", r.is_some() as u64, matches!(m[2], R(_)) as u64);
                if let (Some(x), R(p)) = (r, &m[2]) {
                    eq("removed r", x.parts()[0], p[0]);
                }
                m[2] = Empty;
            }
        }
        // changes through mutable references
        9 => {
            let r = v.get_mut(A(7));
            ieq("get_mut", r.is_some() as u64, matches!(m[0], V2(_)) as u64);
            if let (Some(x), V2(p)) = (r, &mut m[0]) {
                x.0[0] = x.0[0] * 2.0;
                p[0] = p[0] * 2.0;
            }
        }
        10 => {
            let r: Option<&mut VectorVar2> = v.get_unchecked_mut(key(1));
            ieq("get_unchecked_mut", r.is_some() as u64, matches!(m[1], V2(_)) as u64);
            if let (Some(x), V2(p)) = (r, &mut m[1]) {
                let q = any_i("q", step);
                x.0[1] = q;
                p[1] = q;
            }
        }
        // entry: inserts only when vacant
        11 => {
            let c = fresh(step, 0);
            if let V2(p) = &c {
                v.entry(key(2)).or_insert_with(|| Box::new(VectorVar2::new(p[0], p[1])));
            }
            if matches!(m[2], Empty) {
                m[2] = c;
            }
        }
        // a copy is independent
        12 => {
            let mut w = v.clone();
            same_map(&w, m);
            put(&mut w, 1, &fresh(step, 1));
            if let Some(x) = w.get_mut(A(7)) {
                x.0[0] = 0.0;
            }
        }
        // consumed and rebuilt
        _ => {
            let c = fresh(step, 2);
            put(v, 2, &c);
            m[2] = c;
        }
    }
}
fn history(steps: usize, mut op: impl FnMut(usize) -> usize) {
    let mut v = if choice("ctor", 2) == 0 { Values::new() } else { Values::default() };
    let mut m = [Empty, Empty, Empty];
    same_map(&v, &m);
    for s in 0..steps {
        apply(&mut v, &mut m, s, op(s));
        if s + 1 == steps {
            same_map(&v, &m);
        }
    }
    // consuming iteration yields the content once
    let mut seen = [0u64; K];
    for (k, x) in v {
        for j in 0..K {
            if k == key(j) {
                seen[j] += 1;
                let d = match m[j] {
                    Empty => 0,
                    V2(_) => 2,
                    R(_) => 1,
                    V3(_) => 3,
                };
                ieq_i("into_iter dim", j, x.dim() as u64, d);
            }
        }
    }
    for k in 0..K {
        ieq_i("into_iter", k, seen[k], !matches!(m[k], Empty) as u64);
    }
    mark("reached");
}

entries! {
    fn history1() {
        seed(choice("seed", 4));
        history(1, |s| choice_i("op", s, OPS));
    }
    fn history2() {
        seed(choice("seed", 2));
        history(2, |s| choice_i("op", s, OPS));
    }
    fn history3() {
        seed(0);
        history(3, |s| choice_i("op", s, OPS));
    }
    /// everything under one key, longer
    fn one_key() {
        seed(3);
        let ops = [0, 1, 7, 9];
        history(5, |s| ops[choice_i("op", s, 4)]);
    }
    /// two keys of the same type
    fn two_keys() {
        seed(5);
        let ops = [0, 2, 7, 9, 10];
        history(4, |s| ops[choice_i("op", s, 5)]);
    }
    fn t_history4() {
        seed(1);
        history(4, |s| choice_i("op", s, OPS));
    }
    /// many keys, growing the table: nothing gets lost
    fn growth() {
        seed(choice("seed", 6));
        let mut v = Values::new();
        let n = 40;
        for i in 0..n {
            let x = any_i("g", i);
            if i % 2 == 0 {
                v.insert(A(i as u64), VectorVar2::new(x, x + 1.0));
            } else {
                v.insert(C(i as u64), so2(&[1.0, 0.0]));
            }
        }
        ieq("len", v.len() as u64, n as u64);
        for i in 0..n {
            if i % 2 == 0 {
                let r = v.get(A(i as u64));
                ieq_i("there", i, r.is_some() as u64, 1);
                if let Some(x) = r {
                    eq_i("value", i, x.0[0], any_i("g", i));
                }
                ieq_i("other", i, v.get(C(i as u64)).is_none() as u64, 1);
                ieq_i("other b", i, v.get(B(i as u64)).is_none() as u64, 1);
            } else {
                ieq_i("there", i, v.get(C(i as u64)).is_some() as u64, 1);
            }
        }
        for i in 0..n {
            if i % 3 == 0 && i % 2 == 0 {
                let r: Option<VectorVar2> = v.remove(A(i as u64));
                ieq_i("removed", i, r.is_some() as u64, 1);
            }
        }
        for i in 0..n {
            if i % 2 == 0 {
                let r = v.get(A(i as u64));
                ieq_i("kept", i, r.is_some() as u64, (i % 3 != 0) as u64);
                if let Some(x) = r {
                    eq_i("kept value", i, x.0[1], any_i("g", i) + 1.0);
                }
            }
        }
        mark("reached");
    }
}
