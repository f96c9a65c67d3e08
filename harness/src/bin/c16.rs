//! Orderings, linear values and the update of all variables.
use factrs::containers::*;
use factrs::linalg::*;
use factrs::linear::*;
use factrs::traits::*;
use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

const N: usize = 6;
const DIMS: [usize; N] = [3, 1, 6, 2, 3, 6];
const KEYS: [u64; N] = [5, 0, u64::MAX, 1 << 33, (88 << 56) | 2, 77];

/// inserts the variables named in `which`
fn values(which: &[usize], g: bool) -> Values {
    let mut v = Values::new();
    for &k in which {
        let key = Key(KEYS[k]);
        match k {
            0 if !g => v.insert_unchecked(key, VectorVar3::any("v0")),
            2 if !g => v.insert_unchecked(key, VectorVar6::any("v2")),
            4 if !g => v.insert_unchecked(key, VectorVar3::any("v4")),
            0 => v.insert_unchecked(key, SE2::any("v0")),
            1 => v.insert_unchecked(key, SO2::any("v1")),
            2 => v.insert_unchecked(key, SE3::any("v2")),
            3 => v.insert_unchecked(key, VectorVar2::any("v3")),
            4 => v.insert_unchecked(key, SO3::any("v4")),
            _ => v.insert_unchecked(key, ImuBias::any("v5")),
        };
    }
    v
}
fn one<V: Sym + 'static>(label: &str, v: &Values, k: usize, name: &str, delta: Option<&[f64]>)
where
    V: VariableUmbrella,
{
    let x = V::any(name);
    let want = match delta {
        Some(d) => x.oplus(VectorX::from_column_slice(d).as_view()),
        None => x,
    };
    let got: &V = v.get_unchecked(Key(KEYS[k])).unwrap();
    same(label, got, &want);
}
fn expect(v: &Values, k: usize, delta: Option<&[f64]>, g: bool) {
    match k {
        0 if !g => one::<VectorVar3>("a3", v, k, "v0", delta),
        2 if !g => one::<VectorVar6>("a6", v, k, "v2", delta),
        4 if !g => one::<VectorVar3>("b3", v, k, "v4", delta),
        0 => one::<SE2>("se2", v, k, "v0", delta),
        1 => one::<SO2>("so2", v, k, "v1", delta),
        2 => one::<SE3>("se3", v, k, "v2", delta),
        3 => one::<VectorVar2>("v2", v, k, "v3", delta),
        4 => one::<SO3>("so3", v, k, "v4", delta),
        _ => one::<ImuBias>("bias", v, k, "v5", delta),
    }
}
/// the blocks of the ordering are disjoint and cover 0..dim
fn cover(o: &ValuesOrder, which: &[usize]) {
    let total: usize = which.iter().map(|k| DIMS[*k]).sum();
    ieq("order len", o.len() as u64, which.len() as u64);
    ieq("order empty", o.is_empty() as u64, which.is_empty() as u64);
    ieq("order dim", o.dim() as u64, total as u64);
    let mut hit = vec![0u64; total];
    for &k in which {
        let i = o.get(Key(KEYS[k])).unwrap();
        ieq_i("block dim", k, i.dim as u64, DIMS[k] as u64);
        holds_i("inside", k, i.idx + i.dim <= total);
        for j in i.idx..(i.idx + i.dim).min(total) {
            hit[j] += 1;
        }
    }
    for j in 0..total {
        ieq_i("covered once", j, hit[j], 1);
    }
    for k in 0..N {
        if !which.contains(&k) {
            ieq_i("absent", k, o.get(Key(KEYS[k])).is_none() as u64, 1);
        }
    }
    // iteration visits every block once
    let mut seen = 0;
    for (key, i) in o.iter() {
        seen += 1;
        let j = o.get(*key).unwrap();
        ieq("iter idx", i.idx as u64, j.idx as u64);
        ieq("iter dim", i.dim as u64, j.dim as u64);
    }
    ieq("iter count", seen, which.len() as u64);
}
fn linear_values(l: &LinearValues, o: &ValuesOrder, x: &[f64], which: &[usize]) {
    ieq("lv len", l.len() as u64, which.len() as u64);
    ieq("lv empty", l.is_empty() as u64, which.is_empty() as u64);
    ieq("lv dim", l.dim() as u64, x.len() as u64);
    for k in 0..N {
        if !which.contains(&k) {
            ieq_i("lv absent", k, l.get(Key(KEYS[k])).is_none() as u64, 1);
            continue;
        }
        let i = o.get(Key(KEYS[k])).unwrap();
        let b = l.get(Key(KEYS[k])).unwrap();
        ieq_i("lv block", k, b.len() as u64, DIMS[k] as u64);
        for j in 0..DIMS[k] {
            eq_i("lv entry", k * 10 + j, b[j], x[i.idx + j]);
        }
    }
    let mut seen = [0u64; N];
    for (key, b) in l.iter() {
        let k = KEYS.iter().position(|q| *q == key.0).unwrap();
        seen[k] += 1;
        let i = o.get(*key).unwrap();
        ieq_i("lv iter len", k, b.len() as u64, DIMS[k] as u64);
        for j in 0..DIMS[k] {
            eq_i("lv iter entry", k * 10 + j, b[j], x[i.idx + j]);
        }
    }
    for k in 0..N {
        ieq_i("lv iter once", k, seen[k], which.contains(&k) as u64);
    }
}
fn subset(bits: usize) -> Vec<usize> {
    (0..N).filter(|k| bits >> k & 1 == 1).collect()
}
/// with groups the update stays on one branch of exp: the others are C04's
fn vector(n: usize, g: bool) -> Vec<f64> {
    (0..n).map(|i| if g { any_i_in("d", i, 0.5, 1.0) } else { any_i("d", i) }).collect()
}
fn all(which: &[usize], g: bool) {
    let mut v = values(which, g);
    let o = ValuesOrder::from_values(&v);
    cover(&o, which);
    let total = o.dim();
    let x = vector(total, g);
    let l = LinearValues::from_order_and_vector(o.clone(), VectorX::from_column_slice(&x));
    linear_values(&l, &o, &x, which);
    // the order recomputed from the same values is the same
    let l2 = LinearValues::from_values_and_vector(&v, VectorX::from_column_slice(&x));
    linear_values(&l2, &o, &x, which);
    let zero = vec![0.0; total];
    linear_values(&LinearValues::zero_from_order(o.clone()), &o, &zero, which);
    linear_values(&LinearValues::zero_from_values(&v), &o, &zero, which);
    v.oplus_mut(&l);
    ieq("len kept", v.len() as u64, which.len() as u64);
    for &k in which {
        let i = o.get(Key(KEYS[k])).unwrap();
        expect(&v, k, Some(&x[i.idx..i.idx + DIMS[k]]), g);
    }
}

entries! {
    fn subsets() {
        seed(3);
        all(&subset(choice("which", 64)), false);
        mark("reached");
    }
    fn subsets_groups() {
        seed(4);
        all(&subset([0b111111, 0b000101, 0b010110, 0b110001][choice("which", 4)]), true);
        mark("reached");
    }
    fn seeds() {
        seed(choice("seed", 24));
        all(&[0, 1, 2, 3, 4, 5], false);
        mark("reached");
    }
    fn insertion() {
        seed(choice("seed", 4));
        let p = [[5, 4, 3, 2, 1, 0], [2, 0, 4, 1, 5, 3], [3, 5, 0, 4, 2, 1], [1, 2, 0, 5, 3, 4]][choice("order", 4)];
        all(&p, false);
        mark("reached");
    }
    /// an update for some of the variables leaves the others alone, and one for keys that
    /// are not there changes nothing else
    fn partial() {
        seed(choice("seed", 2));
        let a = choice("values", 16);
        let b = choice("delta", 16);
        let s = [0, 1, 3, 5];
        let have: Vec<usize> = (0..4).filter(|k| a >> k & 1 == 1).map(|k| s[k]).collect();
        let upd: Vec<usize> = (0..4).filter(|k| b >> k & 1 == 1).map(|k| s[k]).collect();
        let mut v = values(&have, false);
        let o = ValuesOrder::from_values(&values(&upd, false));
        let x = vector(o.dim(), false);
        v.oplus_mut(&LinearValues::from_order_and_vector(o.clone(), VectorX::from_column_slice(&x)));
        ieq("len kept", v.len() as u64, have.len() as u64);
        for &k in &have {
            if upd.contains(&k) {
                let i = o.get(Key(KEYS[k])).unwrap();
                expect(&v, k, Some(&x[i.idx..i.idx + DIMS[k]]), false);
            } else {
                expect(&v, k, None, false);
            }
        }
        mark("reached");
    }
    /// a given layout is respected, whatever it is
    fn layouts() {
        seed(1);
        let p = [[0, 1, 3], [0, 3, 1], [1, 0, 3], [1, 3, 0], [3, 0, 1], [3, 1, 0]][choice("order", 6)];
        let mut map = ahash::HashMap::default();
        let mut off = 0;
        for k in p {
            map.insert(Key(KEYS[k]), Idx { idx: off, dim: DIMS[k] });
            off += DIMS[k];
        }
        let o = ValuesOrder::new(map);
        cover(&o, &p);
        let x = vector(off, false);
        let l = LinearValues::from_order_and_vector(o.clone(), VectorX::from_column_slice(&x));
        linear_values(&l, &o, &x, &p);
        let mut v = values(&[0, 1, 3, 4], false);
        v.oplus_mut(&l);
        off = 0;
        for k in p {
            expect(&v, k, Some(&x[off..off + DIMS[k]]), false);
            off += DIMS[k];
        }
        expect(&v, 4, None, false);
        mark("reached");
    }
}
