//! Generators and plain reference relations shared by the operator checks.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use std::collections::{BTreeMap, BTreeSet};
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hook::set_substitution;

/// A column with its selector.
#[derive(Clone, Debug, PartialEq)]
pub struct B { pub v: Vec<Fr>, pub s: Vec<Fr> }
impl B {
    pub fn nv(&self) -> usize { log2(self.v.len()) }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn show(&self) -> String {
        let it: Vec<String> = self.v.iter().zip(&self.s).map(|(v, s)| if s.is_one() { show(v) } else if s.is_zero() { format!("({})", show(v)) } else { format!("{}*{}", show(s), show(v)) }).collect();
        format!("[{}]", it.join(" "))
    }
    pub fn cols(&self) -> Vec<Vec<Fr>> { vec![self.v.clone(), self.s.clone()] }
    pub fn active(&self) -> Vec<Fr> { self.v.iter().zip(&self.s).filter(|(_, s)| !s.is_zero()).map(|(v, _)| *v).collect() }
    /// total weight of every value
    pub fn weights(&self) -> W { weights(&self.v, &self.s, None) }
    pub fn set(&self) -> BTreeSet<Fr> { self.active().into_iter().collect() }
}
pub type W = BTreeMap<Fr, Fr>;
pub fn weights(v: &[Fr], s: &[Fr], m: Option<&[Fr]>) -> W {
    let mut w = W::new();
    for i in 0..v.len() {
        let x = s[i] * m.map_or(Fr::one(), |m| m[i]);
        *w.entry(v[i]).or_insert(Fr::zero()) += x;
    }
    w.retain(|_, x| !x.is_zero());
    w
}
pub fn add_w(a: &W, b: &W) -> W {
    let mut r = a.clone();
    for (k, x) in b { *r.entry(*k).or_insert(Fr::zero()) += *x; }
    r.retain(|_, x| !x.is_zero());
    r
}

/// values from a small domain, so repetitions are frequent; sometimes arbitrary field elements
pub fn gen_val(g: &mut Gen, dom: u64) -> Fr {
    if dom == 0 { g.fr() } else { let x = g.below(dom); g.lift(x) }
}
pub fn gen_sel(g: &mut Gen, n: usize) -> Vec<Fr> {
    match g.weighted(&[3, 4, 1, 1, 2]) {
        0 => vec![Fr::one(); n],
        1 => (0..n).map(|_| fr(g.below(2) as i64)).collect(),
        2 => { let k = g.size(0, n - 1); (0..n).map(|i| fr((i == k) as i64)).collect() }
        3 => vec![Fr::zero(); n],
        _ => { let k = g.size(0, n); (0..n).map(|i| fr((i < k) as i64)).collect() }
    }
}
pub fn gen_bag(g: &mut Gen, nv: usize, dom: u64) -> B {
    let n = 1 << nv;
    let v = (0..n).map(|_| gen_val(g, dom)).collect();
    let s = gen_sel(g, n);
    B { v: g.twin(0, v), s: g.twin(1, s) }
}
pub fn permute(g: &mut Gen, b: &B) -> B {
    if g.twins && g.bool() { return b.clone(); }
    let mut idx: Vec<usize> = (0..b.len()).collect();
    g.shuffle(&mut idx);
    B { v: idx.iter().map(|i| b.v[*i]).collect(), s: idx.iter().map(|i| b.s[*i]).collect() }
}
/// a column holding exactly the active values `vals`, the other rows inactive with arbitrary content
pub fn layout(g: &mut Gen, vals: &[Fr], nv: usize, dom: u64, shuffle: bool) -> B {
    let n = 1usize << nv;
    assert!(vals.len() <= n);
    let mut v = vals.to_vec();
    let mut s = vec![Fr::one(); vals.len()];
    while v.len() < n { v.push(if g.bool() { gen_val(g, dom) } else { Fr::zero() }); s.push(Fr::zero()); }
    let b = B { v, s };
    if shuffle { permute(g, &b) } else { b }
}
/// padding zeros in front, then the sorted values: the layout the sort operator documents
pub fn sorted_layout(vals: &[Fr], nv: usize) -> B {
    let n = 1usize << nv;
    let mut x = vals.to_vec();
    x.sort();
    let pad = n - x.len();
    let mut v = vec![Fr::zero(); pad];
    let mut s = vec![Fr::zero(); pad];
    v.extend(x);
    s.resize(n, Fr::one());
    B { v, s }
}
/// Runs `f` and records every polynomial committed after the first `skip`.
pub fn watch<T>(skip: usize, f: impl FnOnce() -> T) -> (T, Vec<Vec<Fr>>) {
    let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let s = seen.clone();
    let r = dishonest(skip, move |_, w| { s.lock().unwrap().push(w.clone()); w }, f);
    let v = seen.lock().unwrap().clone();
    (r, v)
}
/// every value once; with `counted` the selector holds how often it occurs
pub fn counted_layout(vals: &[Fr], nv: usize, counted: bool) -> B {
    let mut all = vals.to_vec();
    all.sort();
    all.dedup();
    let mut b = sorted_layout(&all, nv);
    if counted { for i in 0..b.v.len() { if !b.s[i].is_zero() { b.s[i] = Fr::from(vals.iter().filter(|x| **x == b.v[i]).count() as u64); } } }
    b
}
pub fn min_nv(n: usize) -> usize { (n.max(2)).next_power_of_two().trailing_zeros() as usize }
pub fn subset(g: &mut Gen, dom: u64, max: usize) -> Vec<Fr> {
    let p = g.size(1, 4) as u64;
    let mut v: Vec<Fr> = (0..dom).filter(|_| g.below(4) < p).collect::<Vec<_>>().into_iter().map(|x| g.lift(x)).collect();
    g.shuffle(&mut v);
    v.truncate(max);
    v
}
/// full range column 0..2^nv
pub fn range_col(nv: usize) -> B { B { v: (0..1u64 << nv).map(Fr::from).collect(), s: vec![Fr::one(); 1 << nv] } }

/// The statement of the strict-sort operator.
pub fn strict_sorted(b: &B, range: &[Fr]) -> bool {
    let r: BTreeSet<Fr> = range.iter().copied().collect();
    (0..b.len() - 1).all(|i| {
        let d = b.v[i + 1] - b.v[i];
        r.contains(&d) && (b.s[i].is_zero() || !d.is_zero())
    })
}
/// y with y(y-1) = e, when there is one
pub fn unbool(e: Fr) -> Option<Fr> {
    use ark_ff::Field;
    let r = (Fr::one() + Fr::from(4u64) * e).sqrt()?;
    Some((Fr::one() + r) * Fr::from(2u64).inverse().unwrap())
}
/// entries that are not boolean, although x(x-1) sums to zero over the column
pub fn cancel_bool(g: &mut Gen, s: &mut [Fr]) {
    let n = s.len();
    let i = g.size(0, n - 1);
    let j = (i + g.size(1, n - 1)) % n;
    let mut x = g.fr();
    for _ in 0..40 {
        if let Some(y) = unbool(x - x * x) { s[i] = x; s[j] = y; return; }
        x += Fr::one();
    }
}
/// one random edit of one column; returns whether anything changed
pub fn perturb(g: &mut Gen, b: &mut B, dom: u64) -> bool {
    let i = g.size(0, b.len() - 1);
    let old = b.clone();
    match g.below(4) {
        0 => b.v[i] = gen_val(g, dom),
        1 => b.v[i] += Fr::one(),
        2 => b.s[i] = Fr::one() - b.s[i],
        _ => { let j = g.size(0, b.len() - 1); b.v.swap(i, j); }
    }
    *b != old
}

pub fn bag<P: TestPcs>(c: &[TP<P>], i: usize) -> Bag<E, P> { Bag::new(c[i].clone(), c[i + 1].clone()) }
pub fn bagc<P: TestPcs>(c: &[TC<P>], i: usize, nv: usize) -> BagComm<E, P> { BagComm::new(c[i].clone(), c[i + 1].clone(), nv) }

/// Run `f` while every polynomial committed after the first `skip` passes through `sub`
/// (a dishonest prover). `sub` gets the index counted after the skipped ones.
pub fn dishonest<T>(skip: usize, mut sub: impl FnMut(usize, Vec<Fr>) -> Vec<Fr> + 'static, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { set_substitution::<Fr>(None); } }
    let _r = Reset;
    let mut k = 0usize;
    set_substitution::<Fr>(Some(Box::new(move |p: Dmle| {
        let i = k;
        k += 1;
        if i < skip { return p; }
        let nv = p.num_vars;
        let e = sub(i - skip, p.evaluations);
        assert_eq!(e.len(), 1 << nv);
        Dmle::from_evaluations_vec(nv, e)
    })));
    f()
}
