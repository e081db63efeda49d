//! C03, C04, C05: sumcheck and zerocheck.
use crate::gen::Gen;
use crate::pipe::*;
use crate::props::arith::*;
use crate::runner::*;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use std::sync::Arc;
use zk_sql::arithmetic::*;
use zk_sql::subroutines::poly_iop::prelude::*;
use zk_sql::subroutines::{IOPProof, PolyIOP};
use zk_sql::transcript::IOPTranscript;

pub type T = IOPTranscript<Fr>;
type Msg = zk_sql::subroutines::poly_iop::structs::IOPProverMessage<Fr>;
pub struct Sub { pub point: Vec<Fr>, pub value: Fr }

pub fn sc_prove(v: &VirtualPolynomial<Fr>, t: &mut T) -> Result<IOPProof<Fr>, String> { <PolyIOP<Fr> as SumCheck<Fr>>::prove(v, t).map_err(|e| format!("{e:?}")) }
pub fn sc_verify(sum: Fr, p: &IOPProof<Fr>, aux: &VPAuxInfo<Fr>, t: &mut T) -> Result<Sub, String> {
    match guarded(|| <PolyIOP<Fr> as SumCheck<Fr>>::verify(sum, p, aux, t)) { Ok(Ok(s)) => Ok(Sub { point: s.point, value: s.expected_evaluation }), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(p) }
}
pub fn zc_prove(v: &VirtualPolynomial<Fr>, t: &mut T) -> Result<IOPProof<Fr>, String> { match guarded(|| <PolyIOP<Fr> as ZeroCheck<Fr>>::prove(v, t)) { Ok(r) => r.map_err(|e| format!("{e:?}")), Err(p) => Err(p) } }
fn zc_verify(p: &IOPProof<Fr>, aux: &VPAuxInfo<Fr>, t: &mut T) -> Result<(Sub, Vec<Fr>), String> {
    match guarded(|| <PolyIOP<Fr> as ZeroCheck<Fr>>::verify(p, aux, t)) { Ok(Ok(s)) => Ok((Sub { point: s.point, value: s.expected_evaluation }, s.init_challenge)), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(p) }
}
/// a transcript with a random history
pub fn history(g: &mut Gen, nonempty: bool) -> T {
    let mut t = if g.bool() { <PolyIOP<Fr> as SumCheck<Fr>>::init_transcript() } else { T::new(b"zkv") };
    let n = g.size(nonempty as usize, 3);
    for _ in 0..n { let x = g.fr(); t.append_field_element(b"zkv history", &x).unwrap(); }
    t
}
/// a random polynomial as a list of terms over a pool
pub fn gen_terms(g: &mut Gen, k: usize, max_terms: usize, max_deg: usize) -> Terms {
    let n = g.size(1, max_terms);
    let d = g.size(1, max_deg);
    (0..n).map(|i| {
        let m = if i == 0 { d } else { g.size(1, d) };
        let c = if g.chance(2, 3) { g.fr_nz() } else { g.fr() };
        (c, (0..m).map(|_| g.size(0, k - 1)).collect())
    }).collect()
}
/// (variables, degree) of a case: small mostly, then many variables, then degrees crossing the
/// sizes at which interpolation switches
fn shape(g: &mut Gen) -> (usize, usize, usize) {
    if g.large { return (g.size(10, 13), g.size(1, 3), 3); }
    if g.long { return (g.size(1, 6), g.size(1, 8), 40); }
    match g.weighted(&[12, 3, 2, 2]) {
        0 => (g.size(1, 4), g.size(1, 5), 4),
        1 => { g.tag("many-variables"); (g.size(5, 9), g.size(1, 3), 3) }
        2 => { g.tag("degree-6-21"); (g.size(1, 3), g.size(6, 21), 3) }
        _ => { g.tag("degree-19-40"); (g.size(1, 3), g.size(19, 40), 2) }
    }
}
pub fn build(g: &mut Gen) -> (Pool, Terms, VirtualPolynomial<Fr>) {
    let (nv, d, mt) = shape(g);
    let k = g.size(1, g.lor(5, 20));
    let pool = Pool::new(g, nv, k);
    let mut terms = gen_terms(g, k, mt, d);
    // the first term has exactly the degree drawn
    while terms[0].1.len() < d { terms[0].1.push(g.size(0, k - 1)); }
    let v = pool.build(&terms);
    (pool, terms, v)
}
fn honest(g: &mut Gen) -> R {
    let (pool, terms, v) = build(g);
    let t = history(g, false);
    g.note(format!("nv={} f={} tables={}", pool.nv, show_terms(&terms), pool.tabs.iter().map(|t| shows(&t[..t.len().min(8)])).collect::<Vec<_>>().join(" ")));
    let cube = pool.on_cube(&terms);
    let sum: Fr = cube.iter().sum();
    let (mut tp, mut tv) = (t.clone(), t.clone());
    let proof = sc_prove(&v, &mut tp)?;
    let ex = <PolyIOP<Fr> as SumCheck<Fr>>::extract_sum(&proof);
    if ex != sum { return Err(format!("extracted sum {} instead of {}", show(&ex), show(&sum)).into()); }
    let s = sc_verify(sum, &proof, &v.aux_info, &mut tv).map_err(|e| format!("the honest proof is refused: {e}"))?;
    if s.point != proof.point || s.point.len() != pool.nv { return Err("the prover's point is not the verifier's".into()); }
    let want = pool.at(&terms, &s.point);
    if s.value != want { return Err(format!("expected evaluation {} but the polynomial is {}", show(&s.value), show(&want)).into()); }
    if tp.get_and_append_challenge(b"zkv").map_err(|e| format!("{e:?}"))? != tv.get_and_append_challenge(b"zkv").map_err(|e| format!("{e:?}"))? { return Err("transcripts out of step after the proof".into()); }
    if proof.proofs.len() != pool.nv { return Err("number of messages".into()); }
    // every message is the univariate restriction, by definition (small shapes only)
    if pool.nv <= 3 {
        for (i, m) in proof.proofs.iter().enumerate() {
            for (x, got) in m.verif_evaluations().iter().enumerate() {
                let mut want = Fr::zero();
                for suf in 0..1usize << (pool.nv - 1 - i) {
                    let mut p = s.point[..i].to_vec();
                    p.push(Fr::from(x as u64));
                    p.extend(vertex(suf, pool.nv - 1 - i));
                    want += pool.at(&terms, &p);
                }
                if *got != want { return Err(format!("round {i} message at {x}: {} instead of {}", show(got), show(&want)).into()); }
            }
        }
    }
    Ok(cube.iter().any(|x| !x.is_zero()))
}

/// One alteration of the round messages that changes at least one of the first `nv` messages.
pub fn tamper_msgs(g: &mut Gen, p: &IOPProof<Fr>, nv: usize) -> Option<(IOPProof<Fr>, String)> {
    let mut q = p.clone();
    let n = q.proofs.len();
    let i = g.size(0, n - 1);
    let what;
    match g.below(9) {
        0 => { let m = q.proofs[i].verif_evaluations_mut(); let j = g.size(0, m.len() - 1); let d = g.fr_nz(); m[j] += d; what = format!("message {i}[{j}] += {}", show(&d)); }
        1 => { // keeps the round check satisfied
            let m = q.proofs[i].verif_evaluations_mut(); let d = g.fr_nz(); m[0] += d; m[1] -= d; what = format!("message {i} sum-preserving {}", show(&d)); }
        2 => { // changes only what the sum does not see
            let m = q.proofs[i].verif_evaluations_mut(); if m.len() < 3 { return None; } let j = g.size(2, m.len() - 1); let d = g.fr_nz(); m[j] += d; what = format!("message {i}[{j}] += {} beyond the sum", show(&d)); }
        3 => { let j = g.size(0, n - 1); q.proofs.swap(i, j); what = format!("messages {i} and {j} swapped"); }
        4 => { q.proofs.remove(i); what = format!("message {i} dropped"); }
        5 => { let m = q.proofs[i].clone(); q.proofs.insert(i, m); what = format!("message {i} repeated"); }
        6 => { let m = q.proofs[i].verif_evaluations_mut(); if g.bool() { m.push(Fr::zero()); } else { m.pop(); } what = format!("message {i} of another length"); }
        7 => { let m = q.proofs[i].verif_evaluations_mut(); let a = g.size(0, m.len() - 1); let b = g.size(0, m.len() - 1); m.swap(a, b); what = format!("message {i}: entries {a},{b} swapped"); }
        _ => { let l = q.proofs[i].verif_evaluations().len(); let e = g.fr_vec(l); q.proofs[i] = Msg::verif_new(e); what = format!("message {i} replaced"); }
    }
    let first = |p: &IOPProof<Fr>| p.proofs.iter().take(nv).cloned().collect::<Vec<_>>();
    if first(&q) == first(p) { return None; }
    Some((q, what))
}
fn must_fail(what: &str, r: Result<Sub, String>, f: impl Fn(&[Fr]) -> Fr, nv: usize, g: &mut Gen) -> Result<(), Fail> {
    match r {
        Err(_) => { g.tag("refused"); Ok(()) }
        Ok(s) => {
            g.tag("inconsistent-subclaim");
            if s.point.len() == nv && f(&s.point) == s.value { return Err(format!("{what}: accepted with a subclaim that agrees with the polynomial").into()); }
            Ok(())
        }
    }
}

fn altered(g: &mut Gen) -> R {
    let (pool, terms, v) = build(g);
    let nv = pool.nv;
    let t = history(g, false);
    let sum: Fr = pool.on_cube(&terms).iter().sum();
    let proof = sc_prove(&v, &mut t.clone())?;
    g.note(format!("nv={nv} f={}", show_terms(&terms)));
    let f = |p: &[Fr]| pool.at(&terms, p);
    // a wrong sum
    let d = g.fr_nz();
    must_fail(&format!("sum off by {}", show(&d)), sc_verify(sum + d, &proof, &v.aux_info, &mut t.clone()), f, nv, g)?;
    // altered messages, with the true sum and with the sum the altered proof claims
    for _ in 0..3 {
        if let Some((q, what)) = tamper_msgs(g, &proof, nv) {
            g.note(&what);
            must_fail(&what, sc_verify(sum, &q, &v.aux_info, &mut t.clone()), f, nv, g)?;
            if q.proofs.first().map_or(false, |m| m.verif_evaluations().len() >= 2) {
                let s = <PolyIOP<Fr> as SumCheck<Fr>>::extract_sum(&q);
                must_fail(&format!("{what}, claimed sum adapted"), sc_verify(s, &q, &v.aux_info, &mut t.clone()), f, nv, g)?;
            }
        }
    }
    // other auxiliary information
    let mut aux = v.aux_info.clone();
    match g.below(4) { 0 => aux.max_degree += 1, 1 => aux.max_degree -= 1, 2 => aux.num_variables += 1, _ => aux.num_variables -= 1 }
    if aux.num_variables > 0 {
        let r = sc_verify(sum, &proof, &aux, &mut t.clone());
        must_fail(&format!("degree {} variables {} presented", aux.max_degree, aux.num_variables), r, f, nv, g)?;
    }
    Ok(true)
}
/// A prover that proves another polynomial of the same shape, honestly.
fn foreign(g: &mut Gen) -> R {
    let (pool, terms, v) = build(g);
    let nv = pool.nv;
    let t = history(g, false);
    let sum: Fr = pool.on_cube(&terms).iter().sum();
    // g = f + c*m for a multilinear m; m may sum to zero, so that the claimed sum is right
    let mut m = g.fr_vec(1 << nv);
    let zero_sum = g.bool();
    if zero_sum { let s: Fr = m.iter().sum(); m[0] -= s; }
    if g.bool() { let i = g.size(0, (1 << nv) - 1); for (j, x) in m.iter_mut().enumerate() { if j != i { *x = Fr::zero(); } } if zero_sum { let j = i ^ 1; m[j] = -m[i]; } }
    if m.iter().all(|x| x.is_zero()) { return Ok(false); }
    let mut w = v.clone();
    w.add_mle_list([Arc::new(dmle(&m))], Fr::one()).map_err(|e| format!("{e:?}"))?;
    g.note(format!("nv={nv} f={} proved: f + {}", show_terms(&terms), shows(&m[..m.len().min(16)])));
    let proof = sc_prove(&w, &mut t.clone())?;
    let msum: Fr = m.iter().sum();
    let f = |p: &[Fr]| pool.at(&terms, p);
    must_fail("proof of another polynomial", sc_verify(sum + msum, &proof, &w.aux_info, &mut t.clone()), f, nv, g)?;
    must_fail("proof of another polynomial, with the true sum", sc_verify(sum, &proof, &w.aux_info, &mut t.clone()), f, nv, g)?;
    if msum.is_zero() { g.tag("same-sum"); }
    Ok(true)
}
/// The verifier's point depends on the history and on every message.
fn point_binding(g: &mut Gen) -> R {
    let nv = g.size(1, 5);
    let k = g.size(1, 4);
    let pool = Pool::new(g, nv, k);
    let terms = gen_terms(g, k, 3, 3);
    let v = pool.build(&terms);
    let sum: Fr = pool.on_cube(&terms).iter().sum();
    let t = history(g, false);
    // h = (1 - 2 x_j) * u(x_0..x_j-1): its messages vanish before round j, and not in round j
    let j = g.size(0, nv - 1);
    let u: Vec<Fr> = (0..1usize << j).map(|_| g.fr_random() + Fr::one()).collect();
    let h: Vec<Fr> = (0..1usize << nv).map(|x| { let a = u[x & ((1 << j) - 1)]; if x >> j & 1 == 1 { -a } else { a } }).collect();
    let (mut v, mut w) = (v.clone(), v);
    let mut one = None;
    if g.bool() {
        w.add_mle_list([Arc::new(dmle(&h))], Fr::one()).map_err(|e| format!("{e:?}"))?;
    } else {
        // product of (x_j - c) for c in 0..=D except e >= 2: message j differs in evaluation e only
        let d = g.size(3, 6);
        let e = g.size(2, d);
        let fs: Vec<Arc<_>> = (0..=d).filter(|c| *c != e).map(|c| Arc::new(dmle(&(0..1usize << nv).map(|x| Fr::from((x >> j & 1) as u64) - Fr::from(c as u64)).collect::<Vec<_>>()))).collect();
        v.add_mle_list(fs.clone(), Fr::zero()).map_err(|e| format!("{e:?}"))?;
        w.add_mle_list(fs, g.fr_nz()).map_err(|e| format!("{e:?}"))?;
        one = Some(e);
    }
    g.note(format!("nv={nv} f={} first differing round {j}, evaluations {}", show_terms(&terms), one.map_or("0 and following".into(), |e| format!("{e} only"))));
    let (a, b) = (sc_prove(&v, &mut t.clone())?, sc_prove(&w, &mut t.clone())?);
    let sa = sc_verify(sum, &a, &v.aux_info, &mut t.clone()).map_err(|e| format!("honest proof refused: {e}"))?;
    let sb = sc_verify(sum, &b, &w.aux_info, &mut t.clone()).map_err(|e| format!("honest proof refused: {e}"))?;
    let diff = (0..nv).find(|i| a.proofs[*i] != b.proofs[*i]);
    if diff == Some(j) {
        g.tag("differs-in-one-suffix");
        if let Some(e) = one {
            g.tag("differs-in-one-evaluation");
            let (x, y) = (a.proofs[j].verif_evaluations(), b.proofs[j].verif_evaluations());
            if (0..x.len()).any(|i| (x[i] != y[i]) != (i == e)) { return Err(format!("message {j} differs in other evaluations than {e}").into()); }
        }
        if sa.point[..j] != sb.point[..j] { return Err("points differ before any message does".into()); }
        for i in j..nv { if sa.point[i] == sb.point[i] { return Err(format!("message {j} changed but coordinate {i} of the point did not").into()); } }
    }
    // coordinates are fresh challenges
    for i in 0..nv { for l in 0..i { if sa.point[i] == sa.point[l] { return Err(format!("coordinates {l} and {i} of the point are equal").into()); } } }
    // another history
    let mut t2 = t.clone();
    if g.bool() { t2.append_field_element(b"zkv history", &Fr::from(g.below(3))).unwrap(); } else { t2 = T::new(b"another"); let x = g.fr(); t2.append_field_element(b"zkv history", &x).unwrap(); }
    let c = sc_prove(&v, &mut t2.clone())?;
    for i in 0..nv { if c.point[i] == a.point[i] { return Err(format!("coordinate {i} of the point does not depend on the transcript history").into()); } }
    if let Ok(s) = sc_verify(sum, &a, &v.aux_info, &mut t2.clone()) {
        g.tag("accepted-at-new-point");
        for i in 0..nv { if s.point[i] == a.point[i] { return Err("a proof made for another transcript history is accepted at its own point".into()); } }
    }
    Ok(nv > 1)
}

// ---------------------------------------------------------------- zerocheck
/// terms over `pool` (extended as needed) vanishing on the hypercube
fn zero_terms(g: &mut Gen, tabs: &mut Vec<Vec<Fr>>, nv: usize) -> Terms {
    let n = 1usize << nv;
    let mut terms: Terms = vec![];
    for _ in 0..g.size(1, g.lor(3, 15)) {
        let c = g.fr_nz();
        let k = tabs.len();
        match g.below(5) {
            0 => { // boolean column
                tabs.push((0..n).map(|_| fr(g.below(2) as i64)).collect());
                terms.push((c, vec![k, k]));
                terms.push((-c, vec![k]));
            }
            1 => { // disjoint supports
                let m: Vec<bool> = (0..n).map(|_| g.bool()).collect();
                let (a, b) = (g.fr_vec(n), g.fr_vec(n));
                tabs.push((0..n).map(|i| if m[i] { a[i] } else { Fr::zero() }).collect());
                tabs.push((0..n).map(|i| if m[i] { Fr::zero() } else { b[i] }).collect());
                let mut f = vec![k, k + 1];
                if g.bool() { tabs.push(g.fr_vec(n)); f.push(k + 2); }
                terms.push((c, f));
            }
            2 => { // a product and its materialization
                let d = g.size(2, 5);
                for _ in 0..d { let t = g.fr_vec(n); tabs.push(t); }
                let p: Vec<Fr> = (0..n).map(|i| (k..k + d).map(|j| tabs[j][i]).product()).collect();
                tabs.push(p);
                terms.push((c, (k..k + d).collect()));
                terms.push((-c, vec![k + d]));
            }
            3 => { // a product of a zero table with others
                tabs.push(vec![Fr::zero(); n]);
                let t = g.fr_vec(n); tabs.push(t);
                terms.push((c, if g.bool() { vec![k] } else { vec![k, k + 1] }));
            }
            _ => { // terms that cancel
                let t = g.fr_vec(n); tabs.push(t);
                terms.push((c, vec![k, k]));
                terms.push((-c, vec![k, k]));
            }
        }
    }
    terms
}
fn pool_of(nv: usize, tabs: Vec<Vec<Fr>>) -> Pool { Pool { nv, mles: tabs.iter().map(|t| Arc::new(dmle(t))).collect(), tabs } }
fn zc_nv(g: &mut Gen) -> usize { if g.large { return g.size(9, 12); } if g.chance(1, 8) { g.size(5, 8) } else { g.size(1, 4) } }

fn zero_honest(g: &mut Gen) -> R {
    let nv = zc_nv(g);
    let mut tabs = vec![];
    let terms = zero_terms(g, &mut tabs, nv);
    let pool = pool_of(nv, tabs);
    let v = pool.build(&terms);
    let t = history(g, true);
    g.note(format!("nv={nv} f={} tables={}", show_terms(&terms), pool.tabs.iter().map(|t| shows(&t[..t.len().min(8)])).collect::<Vec<_>>().join(" ")));
    let (mut tp, mut tv) = (t.clone(), t.clone());
    let proof = zc_prove(&v, &mut tp).map_err(|e| format!("prover fails on a zero polynomial: {e}"))?;
    let (s, r) = zc_verify(&proof, &v.aux_info, &mut tv).map_err(|e| format!("the honest proof is refused: {e}"))?;
    if s.point != proof.point || s.point.len() != nv || r.len() != nv { return Err("points".into()); }
    let want = pool.at(&terms, &s.point);
    if s.value != want { return Err(format!("expected evaluation {} but the polynomial is {}", show(&s.value), show(&want)).into()); }
    if tp.get_and_append_challenge(b"zkv").unwrap() != tv.get_and_append_challenge(b"zkv").unwrap() { return Err("transcripts out of step".into()); }
    // the masking challenges are fresh and depend on the history
    for i in 0..nv { for l in 0..i { if r[i] == r[l] { return Err(format!("masking challenges {l} and {i} are equal").into()); } } if s.point.contains(&r[i]) { return Err("a masking challenge recurs in the point".into()); } }
    let mut t2 = t.clone();
    t2.append_field_element(b"zkv history", &Fr::one()).unwrap();
    let p2 = zc_prove(&v, &mut t2.clone())?;
    let (s2, r2) = zc_verify(&p2, &v.aux_info, &mut t2.clone()).map_err(|e| format!("the honest proof is refused: {e}"))?;
    for i in 0..nv { if r[i] == r2[i] || s.point[i] == s2.point[i] { return Err(format!("challenge {i} does not depend on the transcript history").into()); } }
    Ok(pool.tabs.iter().flatten().any(|x| !x.is_zero()))
}
fn zero_false(g: &mut Gen) -> R {
    let nv = zc_nv(g);
    let n = 1usize << nv;
    let mut tabs = vec![];
    let mut terms = zero_terms(g, &mut tabs, nv);
    let zero = terms.clone();
    let zpool = pool_of(nv, tabs.clone());
    // make it non-zero somewhere
    let mut m = vec![Fr::zero(); n];
    let d = g.fr_nz();
    let i = g.size(0, n - 1);
    match g.below(4) {
        0 => { m[i] = d; g.tag("one-vertex"); }
        1 => { m[i] = d; let j = (i + 1 + g.size(0, n - 2)) % n; m[j] = -d; g.tag("sum-zero"); }
        2 if nv >= 2 => { // antisymmetric under exchange of two variables
            let a = g.size(0, nv - 2); let b = g.size(a + 1, nv - 1);
            let i = (i | 1 << a) & !(1 << b);
            m[i] = d; m[i ^ (1 << a) ^ (1 << b)] = -d; g.tag("antisymmetric");
        }
        _ => { m = g.fr_vec(n); if g.bool() { let s: Fr = m.iter().sum(); m[i] -= s; } }
    }
    if m.iter().all(|x| x.is_zero()) { return Ok(false); }
    let k = tabs.len();
    tabs.push(m.clone());
    // sometimes hidden behind a product
    if g.bool() { tabs.push((0..n).map(|i| if m[i].is_zero() { Fr::from(i as u64) } else { Fr::one() }).collect()); terms.push((Fr::one(), vec![k, k + 1])); } else { terms.push((Fr::one(), vec![k])); }
    let pool = pool_of(nv, tabs);
    let v = pool.build(&terms);
    let t = history(g, true);
    g.note(format!("nv={nv} f={} non-zero part {}", show_terms(&terms), shows(&m[..m.len().min(16)])));
    let f = |p: &[Fr]| pool.at(&terms, p);
    let sub = |r: Result<(Sub, Vec<Fr>), String>| r.map(|x| x.0);
    if let Ok(p) = zc_prove(&v, &mut t.clone()) { must_fail("zerocheck of a non-zero polynomial", sub(zc_verify(&p, &v.aux_info, &mut t.clone())), f, nv, g)?; }
    // the proof of the zero part, presented for f
    let mut z = zpool.build(&zero);
    z.aux_info.max_degree = v.aux_info.max_degree;
    if let Ok(p) = zc_prove(&z, &mut t.clone()) { must_fail("proof of another, zero polynomial", sub(zc_verify(&p, &v.aux_info, &mut t.clone())), f, nv, g)?; }
    // a plain sumcheck proof of f (without the mask), padded to the degree expected
    let mut u = v.clone();
    u.aux_info.max_degree += 1;
    let mut tt = t.clone();
    for _ in 0..nv { let _ = tt.get_and_append_challenge(b"0check r"); }
    if let Ok(p) = sc_prove(&u, &mut tt) { must_fail("unmasked sumcheck proof", sub(zc_verify(&p, &v.aux_info, &mut t.clone())), f, nv, g)?; }
    Ok(true)
}
fn zero_altered(g: &mut Gen) -> R {
    let nv = zc_nv(g);
    let mut tabs = vec![];
    let terms = zero_terms(g, &mut tabs, nv);
    let pool = pool_of(nv, tabs);
    let v = pool.build(&terms);
    let t = history(g, true);
    g.note(format!("nv={nv} f={}", show_terms(&terms)));
    let proof = zc_prove(&v, &mut t.clone())?;
    let f = |p: &[Fr]| pool.at(&terms, p);
    let mut any = false;
    for _ in 0..4 {
        if let Some((q, what)) = tamper_msgs(g, &proof, nv) {
            any = true;
            g.note(&what);
            must_fail(&what, zc_verify(&q, &v.aux_info, &mut t.clone()).map(|x| x.0), f, nv, g)?;
        }
    }
    Ok(any)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C03", rule: "random sums of 1-4 products over 1-5 tables of 1-9 variables, degrees 1-40, after a random transcript history; non-trivial: not zero on the whole hypercube",
            families: vec![fam("honest", 30000, 1000000, honest).dbg(3), fam("honest-long", 500, 30000, crate::long!(honest)).dbg(3), fam("honest-large", 60, 5000, crate::large!(honest)).dbg(3)], assumptions: vec!["the empty virtual polynomial (no product term) and zero variables are excluded: the repository never builds them"] },
        Prop { id: "C04", rule: "honest proofs with a wrong sum, one altered, dropped, repeated, swapped or replaced message, other auxiliary information, an honest proof of another polynomial, or another history; non-trivial: something was altered",
            families: vec![fam("altered", 20000, 700000, altered).dbg(3), fam("altered-long", 500, 20000, crate::long!(altered)).dbg(3), fam("altered-large", 50, 3000, crate::large!(altered)).dbg(3), fam("foreign-large", 50, 3000, crate::large!(foreign)).dbg(3), fam("foreign", 20000, 700000, foreign).dbg(3), fam("point", 15000, 500000, point_binding).dbg(3)],
            assumptions: vec!["soundness is statistical: a forgery passes with probability about degree*variables/2^255 per case", "a panic counts as refusing here; C28 rules panics out"] },
        Prop { id: "C05", rule: "polynomials vanishing by booleanity, disjoint supports, a materialized product or cancellation; false ones differ at one vertex, in a sum-zero or antisymmetric pair, or anywhere; non-trivial: a non-zero table, or an alteration",
            families: vec![fam("zero", 15000, 500000, zero_honest).dbg(3), fam("nonzero", 15000, 500000, zero_false).dbg(3), fam("altered", 10000, 300000, zero_altered).dbg(3), fam("zero-long", 500, 20000, crate::long!(zero_honest)).dbg(3), fam("zero-large", 60, 3000, crate::large!(zero_honest)).dbg(3), fam("nonzero-long", 500, 20000, crate::long!(zero_false)).dbg(3), fam("nonzero-large", 60, 3000, crate::large!(zero_false)).dbg(3)],
            assumptions: vec!["soundness is statistical", "the zerocheck transcript must hold at least one message beforehand, as its API demands"] },
    ]
}
