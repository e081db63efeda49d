//! C01, C02: multilinear extensions and virtual polynomials.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use std::sync::Arc;
use zk_sql::arithmetic::*;
use zk_sql::tracker::prelude as tk;

/// chi_i(point): the definition of the multilinear basis, least significant bit = first variable
pub fn chi(i: usize, point: &[Fr]) -> Fr {
    let mut r = Fr::one();
    for (j, x) in point.iter().enumerate() { r *= if i >> j & 1 == 1 { *x } else { Fr::one() - x }; }
    r
}
pub fn def_eval(t: &[Fr], point: &[Fr]) -> Fr {
    assert_eq!(t.len(), 1 << point.len());
    t.iter().enumerate().map(|(i, v)| if v.is_zero() { Fr::zero() } else { *v * chi(i, point) }).sum()
}
fn table(g: &mut Gen, nv: usize) -> Vec<Fr> {
    let n = 1usize << nv;
    match g.weighted(&[6, 1, 1]) {
        0 if n <= 64 => g.fr_vec(n),
        1 => { let k = g.size(0, n - 1); let x = g.fr_nz(); (0..n).map(|i| if i == k { x } else { Fr::zero() }).collect() }
        _ => { use ark_ff::UniformRand; let mut r = g.rng(); (0..n).map(|_| Fr::rand(&mut r)).collect() }
    }
}
pub fn point(g: &mut Gen, n: usize) -> Vec<Fr> {
    match g.weighted(&[4, 2, 1]) { 0 => (0..n).map(|_| g.fr_random()).collect(), 1 => g.fr_vec(n), _ => (0..n).map(|_| fr(g.below(2) as i64)).collect() }
}
fn nvs(g: &mut Gen) -> usize { if g.large { return g.size(13, 17); } match g.weighted(&[8, 3, 1]) { 0 => g.size(0, 5), 1 => g.size(4, 9), _ => g.size(9, 12) } }
fn bad(w: &str, got: &[Fr], want: &[Fr]) -> Fail { format!("{w}: {} instead of {}", shows(got), shows(want)).into() }

fn eval(g: &mut Gen) -> R {
    let nv = nvs(g);
    let t = table(g, nv);
    let p = point(g, nv);
    g.note(format!("table={} point={}", shows(&t[..t.len().min(16)]), shows(&p)));
    let m = dmle(&t);
    let want = def_eval(&t, &p);
    let (a, b) = (evaluate_opt(&m, &p), evaluate_no_par(&m, &p));
    if a != want { return Err(bad("evaluate_opt", &[a], &[want])); }
    if b != want { return Err(bad("evaluate_no_par", &[b], &[want])); }
    // partial evaluation from the front and from the back: every remaining table entry by definition
    let k = g.size(0, nv);
    let rest: Vec<Fr> = (0..1usize << (nv - k)).map(|i| { let lo: Vec<Fr> = t[i << k..(i + 1) << k].to_vec(); def_eval(&lo, &p[..k]) }).collect();
    let got = fix_variables(&m, &p[..k]);
    if got.num_vars != nv - k || got.evaluations != rest { return Err(bad("fix_variables", &got.evaluations, &rest)); }
    let r = nv - k;
    let back: Vec<Fr> = (0..1usize << r).map(|i| { let hi: Vec<Fr> = (0..1usize << k).map(|j| t[j << r | i]).collect(); def_eval(&hi, &p[r..]) }).collect();
    let got = fix_last_variables(&m, &p[r..]);
    if got.num_vars != r || got.evaluations != back { return Err(bad("fix_last_variables", &got.evaluations, &back)); }
    if k > 0 {
        let got = fix_last_variables_no_par(&m, &p[r..]);
        if got.num_vars != r || got.evaluations != back { return Err(bad("fix_last_variables_no_par", &got.evaluations, &back)); }
    }
    if nv >= 9 { g.tag("large"); }
    Ok(nv > 0)
}
fn refuse(g: &mut Gen) -> R {
    let nv = g.size(0, 4);
    let t = table(g, nv);
    let m = dmle(&t);
    let extra = g.size(1, 3);
    let long = point(g, nv + extra);
    let mut wrong = long.clone();
    if nv > 0 && g.bool() { let k = g.size(0, nv - 1); wrong.truncate(k); }
    g.note(format!("nv={nv} long={} wrong={}", long.len(), wrong.len()));
    let no = |w: &str, ok: bool| -> Result<(), Fail> { if ok { Err(format!("{w} accepts {} coordinates for {nv} variables", wrong.len()).into()) } else { Ok(()) } };
    no("evaluate_opt", guarded(|| evaluate_opt(&m, &wrong)).is_ok())?;
    no("evaluate_no_par", guarded(|| evaluate_no_par(&m, &wrong)).is_ok())?;
    no("fix_variables", guarded(|| fix_variables(&m, &long)).is_ok())?;
    no("fix_last_variables", guarded(|| fix_last_variables(&m, &long)).is_ok())?;
    let p = point(g, nv);
    no("eq_eval", eq_eval(&wrong, &p).is_ok())?;
    no("tracker eq_eval", tk::eq_eval(&wrong, &p).is_ok())?;
    if build_eq_x_r::<Fr>(&[]).is_ok() || build_eq_x_r_vec::<Fr>(&[]).is_ok() { return Err("an empty eq polynomial is accepted".into()); }
    // merging different sizes
    let k = g.size(2, 4);
    let j = g.size(0, k - 1);
    let l: Vec<Arc<Dmle>> = (0..k).map(|i| { let n = if i == j { nv + 1 } else { nv }; Arc::new(dmle(&table(g, n))) }).collect();
    if merge_polynomials(&l).is_ok() { return Err(format!("merging polynomials of different sizes is accepted (one of {k} differs)").into()); }
    let ml = Arc::new(m);
    if nv > 0 && (guarded(|| tk::dmle_increase_nv_front(&ml, nv - 1)).is_ok() || guarded(|| tk::dmle_increase_nv_back(&ml, nv - 1)).is_ok()) { return Err("the number of variables can be decreased".into()); }
    Ok(true)
}
fn merge(g: &mut Gen) -> R {
    let nv = g.size(0, 5);
    let k = g.size(1, g.lor(9, 70));
    let ts: Vec<Vec<Fr>> = (0..k).map(|_| table(g, nv)).collect();
    let p = point(g, nv);
    g.note(format!("{k} polynomials of {nv} variables, point={}", shows(&p)));
    let m = merge_polynomials(&ts.iter().map(|t| Arc::new(dmle(t))).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
    let mut bits = 0;
    while (1 << bits) < k { bits += 1; }
    let b = get_batched_nv(nv, k);
    if b != nv + bits || m.num_vars != b || m.evaluations.len() != 1 << b { return Err(format!("merged number of variables {} / {}", b, m.num_vars).into()); }
    for i in 0..1usize << bits {
        let q = gen_eval_point(i, bits, &p);
        let ib: Vec<Fr> = bit_decompose(i as u64, bits).into_iter().map(|x| fr(x as i64)).collect();
        if q.len() != b || q[..nv] != p[..] || q[nv..] != ib[..] { return Err(bad("gen_eval_point", &q, &p)); }
        let want = if i < k { def_eval(&ts[i], &p) } else { Fr::zero() };
        let got = def_eval(&m.evaluations, &q);
        if got != want { return Err(bad(&format!("merged polynomial, slot {i}"), &[got], &[want])); }
    }
    Ok(k > 1)
}
fn bits(g: &mut Gen) -> R {
    let n = g.size(1, 63);
    let x = if g.bool() { g.below(1 << n.min(62)) } else { g.below(1 << 62) };
    g.note(format!("{x} in {n} bits"));
    let d = bit_decompose(x, n);
    let d2 = tk::bit_decompose(x, n);
    let f: Vec<Fr> = tk::binary_decompose(x, n);
    for i in 0..n { let b = x >> i & 1 == 1; if d.len() != n || d[i] != b || d2.len() != n || d2[i] != b || f.len() != n || f[i] != fr(b as i64) { return Err(format!("bit {i} of {x}").into()); } }
    // i = (i_0..i_{n-1}) -> (i_1.., 0), (i_1.., 1), i_0, most significant first
    let n = n.min(40);
    let x = (x & ((1 << n) - 1)) as usize;
    let (a, b, s) = get_index(x, n);
    let sh = (x << 1) & ((1 << n) - 1);
    if a != sh || b != sh + 1 || s != (x >> (n - 1) & 1 == 1) { return Err(format!("get_index({x}, {n}) = {a} {b} {s}").into()); }
    Ok(true)
}
fn eqs(g: &mut Gen) -> R {
    let nv = if g.large { g.size(9, 16) } else { g.size(1, 8) };
    let r = point(g, nv);
    let y = point(g, nv);
    g.note(format!("r={} y={}", shows(&r), shows(&y)));
    let want: Vec<Fr> = (0..1usize << nv).map(|i| chi(i, &r)).collect();
    for (n, got) in [("build_eq_x_r_vec", build_eq_x_r_vec(&r).map_err(|e| format!("{e:?}"))?), ("build_eq_x_r", build_eq_x_r(&r).map_err(|e| format!("{e:?}"))?.evaluations.clone()), ("tracker build_eq_x_r", tk::build_eq_x_r(&r).map_err(|e| format!("{e:?}"))?.evaluations)] {
        if got != want { return Err(bad(n, &got, &want)); }
    }
    let w: Fr = (0..nv).map(|i| r[i] * y[i] + (Fr::one() - r[i]) * (Fr::one() - y[i])).product();
    for (n, got) in [("eq_eval", eq_eval(&r, &y).map_err(|e| format!("{e:?}"))?), ("tracker eq_eval", tk::eq_eval(&r, &y).map_err(|e| format!("{e:?}"))?)] {
        if got != w { return Err(bad(n, &[got], &[w])); }
    }
    Ok(nv > 1)
}
fn grow(g: &mut Gen) -> R {
    let nv = if g.large { g.size(6, 13) } else { g.size(0, 6) };
    let add = g.size(0, 4);
    let t = table(g, nv);
    let p = point(g, nv + add);
    g.note(format!("table={} +{add}", shows(&t[..t.len().min(16)])));
    let m = Arc::new(dmle(&t));
    let f = tk::dmle_increase_nv_front(&m, nv + add);
    let b = tk::dmle_increase_nv_back(&m, nv + add);
    for (n, x, sub) in [("front", &f, &p[add..]), ("back", &b, &p[..nv])] {
        if x.num_vars != nv + add || x.evaluations.len() != 1 << (nv + add) { return Err(format!("{n}: wrong size").into()); }
        let (got, want) = (def_eval(&x.evaluations, &p), def_eval(&t, sub));
        if got != want { return Err(bad(n, &[got], &[want])); }
    }
    if m.evaluations != t { return Err("the argument changed".into()); }
    Ok(add > 0)
}
fn random_lists(g: &mut Gen) -> R {
    let nv = g.size(0, 6);
    let d = g.size(1, 5);
    let mut rng = g.rng();
    g.note(format!("nv={nv} degree={d}"));
    let (l, s) = random_mle_list::<Fr, _>(nv, d, &mut rng);
    let z = random_zero_mle_list::<Fr, _>(nv, d, &mut rng);
    let prods = |l: &[Arc<Dmle>]| -> Vec<Fr> { (0..1usize << nv).map(|i| l.iter().map(|m| m.evaluations[i]).product()).collect() };
    if l.len() != d || z.len() != d || l.iter().chain(&z).any(|m| m.num_vars != nv) { return Err("wrong number or size of polynomials".into()); }
    let sum: Fr = prods(&l).into_iter().sum();
    if sum != s { return Err(bad("random_mle_list sum", &[s], &[sum])); }
    if prods(&z).iter().any(|x| !x.is_zero()) { return Err("random_zero_mle_list is not zero everywhere".into()); }
    // permutations
    let k = g.size(1, 4);
    let n = k << nv;
    let id: Vec<Fr> = (0..n as u64).map(Fr::from).collect();
    if identity_permutation::<Fr>(nv, k) != id { return Err("identity_permutation".into()); }
    let flat = |v: Vec<Vec<Fr>>| v.concat();
    let im = identity_permutation_mles::<Fr>(nv, k);
    if im.len() != k || im.iter().any(|m| m.num_vars != nv) || flat(im.iter().map(|m| m.evaluations.clone()).collect()) != id { return Err("identity_permutation_mles".into()); }
    let rp = random_permutation::<Fr, _>(nv, k, &mut rng);
    let rm = random_permutation_mles::<Fr, _>(nv, k, &mut rng);
    if rm.len() != k || rm.iter().any(|m| m.num_vars != nv) { return Err("random_permutation_mles: wrong shape".into()); }
    for mut v in [rp, flat(rm.into_iter().map(|m| m.evaluations).collect())] { v.sort(); if v != id { return Err("a random permutation is not a permutation".into()); } }
    Ok(nv > 0)
}

// ---------------------------------------------------------------- C02
pub type Terms = Vec<(Fr, Vec<usize>)>;
pub struct TermsRef { pub terms: Terms, pub deg: usize }
pub struct Pool { pub nv: usize, pub mles: Vec<Arc<Dmle>>, pub tabs: Vec<Vec<Fr>> }
impl Pool {
    pub fn new(g: &mut Gen, nv: usize, k: usize) -> Pool {
        let mut tabs: Vec<Vec<Fr>> = vec![];
        for i in 0..k { if i > 0 && g.chance(1, 5) { let j = g.size(0, i - 1); let t = tabs[j].clone(); tabs.push(t) } else { tabs.push(g.fr_vec(1 << nv)) } }
        Pool { nv, mles: tabs.iter().map(|t| Arc::new(dmle(t))).collect(), tabs }
    }
    pub fn at(&self, terms: &Terms, p: &[Fr]) -> Fr {
        let e: Vec<Fr> = self.tabs.iter().map(|t| def_eval(t, p)).collect();
        terms.iter().map(|(c, f)| *c * f.iter().map(|i| e[*i]).product::<Fr>()).sum()
    }
    pub fn on_cube(&self, terms: &Terms) -> Vec<Fr> {
        (0..1usize << self.nv).map(|x| terms.iter().map(|(c, f)| *c * f.iter().map(|i| self.tabs[*i][x]).product::<Fr>()).sum()).collect()
    }
    pub fn build(&self, terms: &Terms) -> VirtualPolynomial<Fr> {
        let mut v = VirtualPolynomial::new(self.nv);
        for (c, f) in terms { v.add_mle_list(f.iter().map(|i| self.mles[*i].clone()), *c).unwrap(); }
        v
    }
}
pub fn vertex(i: usize, nv: usize) -> Vec<Fr> { (0..nv).map(|j| fr((i >> j & 1) as i64)).collect() }
pub fn show_terms(t: &Terms) -> String { t.iter().map(|(c, f)| format!("{}*{f:?}", show(c))).collect::<Vec<_>>().join(" + ") }

fn vp_ops(g: &mut Gen) -> R {
    let nv = if g.large { g.size(6, 10) } else { g.size(1, 5) };
    let k = g.size(1, g.lor(6, 30));
    let pool = Pool::new(g, nv, k);
    let other = Arc::new(dmle(&g.fr_vec(1 << (nv + 1))));
    let mut vs: Vec<(VirtualPolynomial<Fr>, TermsRef)> = vec![];
    let steps = g.size(1, g.lor(12, 50));
    let mut refused = false;
    for _ in 0..steps {
        let op = if vs.is_empty() { g.below(2) } else { g.below(7) };
        match op {
            0 => { vs.push((VirtualPolynomial::new(nv), TermsRef { terms: vec![], deg: 0 })); g.note("new"); }
            1 => { let (i, c) = (g.size(0, k - 1), g.fr()); vs.push((VirtualPolynomial::new_from_mle(&pool.mles[i], c), TermsRef { terms: vec![(c, vec![i])], deg: 1 })); g.note(format!("from {i}*{}", show(&c))); }
            2 | 3 => {
                let j = g.size(0, vs.len() - 1);
                let n = g.size(1, g.lor(5, 12));
                let f: Vec<usize> = (0..n).map(|_| g.size(0, k - 1)).collect();
                let c = g.fr();
                g.note(format!("v{j} += {}*{f:?}", show(&c)));
                vs[j].0.add_mle_list(f.iter().map(|i| pool.mles[*i].clone()), c).map_err(|e| format!("add_mle_list: {e:?}"))?;
                vs[j].1.deg = vs[j].1.deg.max(n);
                vs[j].1.terms.push((c, f));
            }
            4 => {
                let j = g.size(0, vs.len() - 1);
                let (i, c) = (g.size(0, k - 1), g.fr());
                g.note(format!("v{j} *= {}*{i}", show(&c)));
                vs[j].0.mul_by_mle(pool.mles[i].clone(), c).map_err(|e| format!("mul_by_mle: {e:?}"))?;
                vs[j].1.deg += 1;
                for t in vs[j].1.terms.iter_mut() { t.0 *= c; t.1.push(i); }
            }
            5 => {
                let (a, b) = (g.size(0, vs.len() - 1), g.size(0, vs.len() - 1));
                if vs[a].1.terms.len() + vs[b].1.terms.len() > 150 { continue; }
                g.note(format!("v{} = v{a} + v{b}", vs.len()));
                let s = &vs[a].0 + &vs[b].0;
                let mut terms = vs[a].1.terms.clone();
                terms.extend(vs[b].1.terms.iter().cloned());
                let deg = vs[a].1.deg.max(vs[b].1.terms.iter().map(|t| t.1.len()).max().unwrap_or(0));
                vs.push((s, TermsRef { terms, deg }));
            }
            _ => {
                // refused operations on a copy
                let j = g.size(0, vs.len() - 1);
                refused = true;
                let mut v = vs[j].0.clone();
                if v.add_mle_list(Vec::<Arc<Dmle>>::new(), Fr::one()).is_ok() { return Err("an empty product is accepted".into()); }
                let at = g.size(0, 2);
                let mut l: Vec<Arc<Dmle>> = (0..2).map(|_| pool.mles[g.size(0, k - 1)].clone()).collect();
                l.insert(at, other.clone());
                if v.add_mle_list(l, Fr::one()).is_ok() { return Err(format!("a product with a multiplicand of {} instead of {nv} variables is accepted", nv + 1).into()); }
                if v.mul_by_mle(other.clone(), Fr::one()).is_ok() { return Err("multiplying by a polynomial of another size is accepted".into()); }
                let q = point(g, nv + 1);
                if v.evaluate(&q).is_ok() || v.evaluate(&q[..nv - 1]).is_ok() { return Err("evaluating at a point of the wrong length is accepted".into()); }
                if v.build_f_hat(&q).is_ok() || v.build_f_hat(&q[..nv - 1]).is_ok() { return Err("build_f_hat with the wrong number of challenges is accepted".into()); }
                let mut w = VirtualPolynomial::<Fr>::new(nv + 1);
                w.add_mle_list([other.clone()], Fr::one()).unwrap();
                if guarded(|| &vs[j].0 + &w).is_ok() { return Err("adding virtual polynomials of different sizes is accepted".into()); }
            }
        }
    }
    let p = point(g, nv);
    for (j, (v, r)) in vs.iter().enumerate() {
        if v.aux_info.num_variables != nv { return Err(format!("v{j} reports {} variables", v.aux_info.num_variables).into()); }
        // the degree is only meaningful once there is a term
        let top = r.terms.iter().map(|t| t.1.len()).max();
        if let Some(d) = top { if v.aux_info.max_degree != d.max(r.deg) { return Err(format!("v{j} = {} reports degree {}", show_terms(&r.terms), v.aux_info.max_degree).into()); } }
        let want = pool.at(&r.terms, &p);
        let got = v.evaluate(&p).map_err(|e| format!("{e:?}"))?;
        if got != want { return Err(bad(&format!("v{j} = {} at {}", show_terms(&r.terms), shows(&p)), &[got], &[want])); }
        let cube = pool.on_cube(&r.terms);
        let m = v.materialize();
        if m.num_vars != nv || m.evaluations != cube { return Err(bad(&format!("materialized v{j} = {}", show_terms(&r.terms)), &m.evaluations, &cube)); }
        for (i, w) in cube.iter().enumerate() { if cube.len() > 32 && !g.chance(4, cube.len() as u64) { continue; } if v.evaluate(&vertex(i, nv)).map_err(|e| format!("{e:?}"))? != *w { return Err(format!("v{j} at vertex {i}").into()); } }
        let q = point(g, nv);
        let h = v.build_f_hat(&q).map_err(|e| format!("{e:?}"))?;
        let (got, want) = (h.evaluate(&p).map_err(|e| format!("{e:?}"))?, want * eq_eval(&p, &q).unwrap());
        if got != want { return Err(bad("build_f_hat", &[got], &[want])); }
        if top.is_some() && h.aux_info.max_degree != v.aux_info.max_degree + 1 { return Err("degree of build_f_hat".into()); }
    }
    if refused { g.tag("refusals"); }
    Ok(vs.iter().any(|v| v.1.terms.len() > 1))
}
fn vp_rand(g: &mut Gen) -> R {
    let (nv, lo, n) = (g.size(1, 6), g.size(1, 4), g.size(1, 6));
    let hi = lo + g.size(1, 3);
    let mut rng = g.rng();
    g.note(format!("nv={nv} multiplicands {lo}..{hi} products={n}"));
    let (v, s) = VirtualPolynomial::<Fr>::rand(nv, (lo, hi), n, &mut rng).map_err(|e| format!("{e:?}"))?;
    let z = VirtualPolynomial::<Fr>::rand_zero(nv, (lo, hi), n, &mut rng).map_err(|e| format!("{e:?}"))?;
    for x in [&v, &z] {
        if x.products.len() != n || x.aux_info.num_variables != nv || x.products.iter().any(|p| p.1.len() < lo || p.1.len() >= hi) { return Err("shape of a random virtual polynomial".into()); }
        if x.aux_info.max_degree != x.products.iter().map(|p| p.1.len()).max().unwrap() { return Err("degree of a random virtual polynomial".into()); }
    }
    let cube = |x: &VirtualPolynomial<Fr>| -> Vec<Fr> { (0..1usize << nv).map(|i| x.products.iter().map(|(c, f)| *c * f.iter().map(|k| x.flattened_ml_extensions[*k].evaluations[i]).product::<Fr>()).sum()).collect() };
    let sum: Fr = cube(&v).into_iter().sum();
    if sum != s { return Err(bad("sum of a random virtual polynomial", &[s], &[sum])); }
    if cube(&z).iter().any(|x| !x.is_zero()) { return Err("rand_zero is not zero on the hypercube".into()); }
    Ok(n > 1)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "tables of 1-4096 random, special or single-entry values, points random or with zeros and ones, wrong lengths for the refusals; non-trivial: at least one variable, several polynomials, or an added variable",
            families: vec![fam("evaluate", 30000, 1500000, eval).dbg(5), fam("refuse", 4000, 100000, refuse).dbg(10), fam("merge", 20000, 600000, merge).dbg(5), fam("bits", 60000, 2000000, bits).dbg(5), fam("eq", 30000, 1000000, eqs).dbg(5), fam("grow", 40000, 1500000, grow).dbg(5), fam("random", 20000, 600000, random_lists).dbg(5), fam("evaluate-large", 40, 2000, crate::large!(eval)).dbg(3), fam("merge-long", 300, 20000, crate::long!(merge)).dbg(5), fam("eq-large", 60, 4000, crate::large!(eqs)).dbg(3), fam("grow-large", 100, 5000, crate::large!(grow)).dbg(3)],
            assumptions: vec!["built with the default features; the non-parallel build of the repository does not compile"] },
        Prop { id: "C02", rule: "1-12 construction steps over 1-6 shared multilinear polynomials of 1-5 variables, some with equal content; non-trivial: a virtual polynomial with at least two terms",
            families: vec![fam("operations", 25000, 1000000, vp_ops).dbg(5), fam("random", 10000, 300000, vp_rand).dbg(5), fam("operations-long", 200, 10000, crate::long!(vp_ops)).dbg(5), fam("operations-large", 40, 2000, crate::large!(vp_ops)).dbg(5)], assumptions: vec!["the reported degree is compared only for polynomials with at least one term"] },
    ]
}
