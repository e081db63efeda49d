//! C13-C17 and C24: bag operators.
use super::common::*;
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use crate::{forged, huge, large, limbs};
use crate::with_scheme;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use std::sync::{Arc, Mutex};
use zk_sql::zksql_poly_iop::verif_exports::*;

// ---------------------------------------------------------------- C13
#[derive(Clone)]
struct K { b: B, m: Vec<Fr> }
fn run_multi<P: TestPcs>(fs: &[K], gs: &[K], seed: u64) -> Outcome {
    let mut cols = vec![];
    for k in fs.iter().chain(gs) { cols.extend(k.b.cols()); cols.push(k.m.clone()); }
    let nvs: Vec<usize> = fs.iter().chain(gs).map(|k| k.b.nv()).collect();
    let nf = fs.len();
    let n = nvs.len();
    run_op::<P>(&cols, seed,
        |pt, c| {
            let b: Vec<_> = (0..n).map(|i| bag(c, 3 * i)).collect();
            let m: Vec<_> = (0..n).map(|i| c[3 * i + 2].clone()).collect();
            BagMultitoolIOP::<E, P>::prove(pt, &b[..nf], &b[nf..], &m[..nf], &m[nf..])
        },
        |vt, c| {
            let b: Vec<_> = (0..n).map(|i| bagc(c, 3 * i, nvs[i])).collect();
            let m: Vec<_> = (0..n).map(|i| c[3 * i + 2].clone()).collect();
            BagMultitoolIOP::<E, P>::verify(vt, &b[..nf], &b[nf..], &m[..nf], &m[nf..])
        })
}
fn tot(ks: &[K]) -> W { ks.iter().fold(W::new(), |a, k| add_w(&a, &weights(&k.b.v, &k.b.s, Some(&k.m)))) }

fn gen_multi(g: &mut Gen) -> (Vec<K>, Vec<K>) {
    let dom = *g.pick(&[4u64, 2, 9, 0]);
    let dom = g.dom(dom);
    let mut fs = vec![];
    for _ in 0..g.size(1, g.lor(3, 9)) {
        let nv = g.nv(1, 3);
        let b = gen_bag(g, nv, dom);
        let m = match g.below(3) { 0 => vec![Fr::one(); b.len()], 1 => (0..b.len()).map(|_| fr(g.below(4) as i64)).collect(), _ => g.fr_vec(1 << nv) };
        fs.push(K { b, m });
    }
    // entries (value, weight) of the left side dealt to the right side
    let mut ent: Vec<(Fr, Fr)> = vec![];
    if g.bool() {
        for (v, w) in tot(&fs) {
            if g.chance(1, 3) { let a = g.fr(); ent.push((v, a)); ent.push((v, w - a)); } else { ent.push((v, w)); }
        }
    } else {
        for k in &fs { for i in 0..k.b.len() { let w = k.b.s[i] * k.m[i]; if !w.is_zero() { ent.push((k.b.v[i], w)); } } }
    }
    g.shuffle(&mut ent);
    let ng = g.size(1, g.lor(3, 9));
    let mut parts: Vec<Vec<(Fr, Fr)>> = vec![vec![]; ng];
    for e in ent { let j = g.size(0, ng - 1); parts[j].push(e); }
    let mut gs = vec![];
    for p in parts {
        let nv = min_nv(p.len()) + g.size(0, 1);
        let n = 1usize << nv;
        let (mut v, mut s, mut m) = (vec![], vec![], vec![]);
        for (x, w) in p { v.push(x); s.push(Fr::one()); m.push(w); }
        while v.len() < n {
            v.push(gen_val(g, dom));
            if g.bool() { s.push(Fr::zero()); m.push(g.fr()); } else { s.push(Fr::one()); m.push(Fr::zero()); }
        }
        let mut idx: Vec<usize> = (0..n).collect();
        g.shuffle(&mut idx);
        gs.push(K { b: B { v: idx.iter().map(|i| v[*i]).collect(), s: idx.iter().map(|i| s[*i]).collect() }, m: idx.iter().map(|i| m[*i]).collect() });
    }
    if g.bool() {
        // one edit somewhere
        let total = fs.len() + gs.len();
        let k = g.size(0, total - 1);
        let nf = fs.len();
        let t = if k < nf { &mut fs[k] } else { &mut gs[k - nf] };
        if g.chance(1, 3) { let i = g.size(0, t.m.len() - 1); let d = g.fr(); t.m[i] += d; } else { perturb(g, &mut t.b, dom); }
    }
    (fs, gs)
}
fn c13_multi(g: &mut Gen) -> R {
    let (fs, gs) = gen_multi(g);
    let want = tot(&fs) == tot(&gs);
    for (n, k) in fs.iter().map(|k| ("f", k)).chain(gs.iter().map(|k| ("g", k))) { g.note(format!("{n}={} m={}", k.b.show(), shows(&k.m))); }
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_multi, &fs, &gs, 11);
    if fs.iter().chain(&gs).any(|k| k.b.nv() != fs[0].b.nv()) { g.tag("mixed-sizes"); }
    expect(g, &o, want, "keyed multiplicity equality")?;
    Ok(!tot(&fs).is_empty())
}
fn run_eq<P: TestPcs>(a: &B, b: &B, seed: u64) -> Outcome {
    let (x, y) = (a.nv(), b.nv());
    run_op::<P>(&[a.cols(), b.cols()].concat(), seed,
        |pt, c| BagEqIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2)),
        |vt, c| BagEqIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y)))
}
fn c13_eq(g: &mut Gen) -> R {
    let dom = *g.pick(&[4u64, 2, 20, 0]);
    let dom = g.dom(dom);
    let nv = g.nv(1, 4);
    let a = gen_bag(g, nv, dom);
    let act = a.active();
    let mut b = if g.chance(1, 6) { gen_bag(g, nv, dom) } else if g.bool() { permute(g, &a) } else { layout(g, &act, nv, dom, true) };
    if g.bool() { perturb(g, &mut b, dom); }
    g.note(format!("f={} g={}", a.show(), b.show()));
    let want = a.weights() == b.weights();
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_eq, &a, &b, 12);
    expect(g, &o, want, "bag equality")?;
    Ok(a.set().len() > 1)
}
fn run_sum<P: TestPcs>(a: &B, b: &B, c: &B, seed: u64) -> Outcome {
    let (x, y, z) = (a.nv(), b.nv(), c.nv());
    run_op::<P>(&[a.cols(), b.cols(), c.cols()].concat(), seed,
        |pt, c| BagSumIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4)),
        |vt, c| BagSumIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y), &bagc(c, 4, z)))
}
fn c13_sum(g: &mut Gen) -> R {
    let dom = *g.pick(&[4u64, 2, 20, 0]);
    let dom = g.dom(dom);
    let (na, nb) = (g.nv(1, 3), g.nv(1, 3));
    let mut a = gen_bag(g, na, dom);
    let mut b = gen_bag(g, nb, dom);
    let all = [a.active(), b.active()].concat();
    let nc = min_nv(all.len()) + g.size(0, 1);
    let mut c = layout(g, &all, nc, dom, true);
    if g.bool() { match g.below(3) { 0 => perturb(g, &mut a, dom), 1 => perturb(g, &mut b, dom), _ => perturb(g, &mut c, dom) }; }
    g.note(format!("f0={} f1={} g={}", a.show(), b.show(), c.show()));
    let want = add_w(&a.weights(), &b.weights()) == c.weights();
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_sum, &a, &b, &c, 13);
    expect(g, &o, want, "bag sum")?;
    Ok(all.len() > 1)
}
/// A dishonest prover alters the inverse columns it commits to; never accepted.
fn c13_forge(g: &mut Gen) -> R {
    let dom = *g.pick(&[4u64, 2, 20]);
    let nv = g.size(1, 3);
    let a = gen_bag(g, nv, dom);
    let mut b = permute(g, &a);
    let honest = !g.bool();
    if !honest { while !perturb(g, &mut b, dom) && b == a { b.v[0] += Fr::one(); } }
    let want_without = a.weights() == b.weights();
    let which = g.size(0, 1);
    let row = g.size(0, a.len() - 1);
    let delta = g.fr_nz();
    // either an arbitrary change, or one chosen to make both sums agree
    let fix = g.bool();
    // and whose errors against the inverse relation sum to zero as well
    let cancel = fix && g.bool();
    let (fa, fb) = (a.clone(), b.clone());
    g.note(format!("f={} g={} altered inverse column {which} row {row}{}", a.show(), b.show(), if fix { " to balance the sums" } else { "" }));
    let touched = Arc::new(Mutex::new(0usize));
    let t2 = touched.clone();
    let o = dishonest(4, move |k, mut w| {
        // inverse columns: w = 1/(value - gamma)
        let cand = if k == 0 { Some(&fa) } else if k == 1 { Some(&fb) } else { None };
        let Some(me) = cand else { return w };
        let gam: Option<Fr> = w[0].inverse().map(|x| me.v[0] - x);
        let Some(gamma) = gam else { return w };
        if !w.iter().zip(&me.v).all(|(x, v)| (*v - gamma) * x == Fr::one()) { return w; }
        if k != which { return w; }
        if fix {
            let s = |b: &B| b.v.iter().zip(&b.s).map(|(v, s)| (*v - gamma).inverse().unwrap() * s).sum::<Fr>();
            let d = if k == 0 { s(&fb) - s(&fa) } else { s(&fa) - s(&fb) };
            if cancel {
                let act = |i: &usize| !me.s[*i].is_zero();
                if let Some(i) = (0..w.len()).find(act) {
                    let e = if d.is_zero() { delta } else { d };
                    if let Some(j) = (0..w.len()).find(|j| !act(j)) {
                        if !d.is_zero() { w[i] += d; w[j] -= d * (me.v[i] - gamma) * (me.v[j] - gamma).inverse().unwrap(); *t2.lock().unwrap() += 1; return w; }
                    }
                    if let Some(j) = (0..w.len()).find(|j| act(j) && me.v[*j] != me.v[i]) {
                        // di + dj = d, di (vi - gamma) + dj (vj - gamma) = 0
                        if !d.is_zero() {
                            let di = -d * (me.v[j] - gamma) * (me.v[i] - me.v[j]).inverse().unwrap();
                            w[i] += di; w[j] += d - di; *t2.lock().unwrap() += 1; return w;
                        }
                        // a third active row, three unknowns of which one is free
                        if let Some(l) = (0..w.len()).find(|l| *l != i && *l != j && act(l)) {
                            let r = (me.v[l] - gamma) * e;
                            let dj = ((me.v[i] - gamma) * e - r) * (me.v[j] - me.v[i]).inverse().unwrap();
                            w[l] += e; w[j] += dj; w[i] -= e + dj;
                            if !dj.is_zero() || !e.is_zero() { *t2.lock().unwrap() += 1; }
                            return w;
                        }
                    }
                }
            }
            if let Some(i) = (0..w.len()).find(|i| !me.s[*i].is_zero()) {
                if d.is_zero() { // keep the sum, move weight between two rows
                    if let Some(j) = (i + 1..w.len()).find(|j| !me.s[*j].is_zero()) { w[i] += delta; w[j] -= delta; *t2.lock().unwrap() += 1; }
                    else if let Some(j) = (0..w.len()).find(|j| me.s[*j].is_zero()) { w[j] += delta; *t2.lock().unwrap() += 1; }
                } else { w[i] += d; *t2.lock().unwrap() += 1; }
            }
        } else { w[row] += delta; *t2.lock().unwrap() += 1; }
        w
    }, || run_eq::<MockPcs>(&a, &b, 14));
    let touched = *touched.lock().unwrap() > 0;
    if touched { g.tag("altered"); }
    if let Some(m) = &o.mirror { return Err(format!("verifier does not mirror the prover: {m}").into()); }
    let want = want_without && !touched;
    if o.verdict.accepted() != want { return Err(format!("bag equality with altered inverse column: verdict {:?}", o.verdict).into()); }
    Ok(touched)
}
fn c13_shape(g: &mut Gen) -> R {
    // mismatching lengths and sizes are refused by the prover, lengths by the verifier too
    let kind = g.below(6);
    let nv = g.size(1, 2);
    let b = gen_bag(g, nv, 4);
    let cols = [b.cols(), vec![vec![Fr::one(); 1 << nv]], vec![vec![Fr::one(); 2 << nv]], vec![vec![Fr::one(); 2 << nv]]].concat();
    g.note(format!("shape mismatch {kind} nv {nv}"));
    let (pp, vp) = MockPcs::params();
    let pe = guarded(|| {
        let mut pt = PT::<MockPcs>::new_from_pcs_params(pp);
        let c: Vec<_> = cols.iter().map(|c| pt.track_and_commit_poly(dmle(c)).unwrap()).collect();
        let x = bag(&c, 0);
        let m = c[2].clone();
        let big = c[3].clone();
        let bigbag = bag(&c, 3);
        match kind {
            0 => BagMultitoolIOP::<E, MockPcs>::prove(&mut pt, &[], &[x], &[], &[m]),
            1 => BagMultitoolIOP::<E, MockPcs>::prove(&mut pt, &[x], &[], &[m], &[]),
            2 => BagMultitoolIOP::<E, MockPcs>::prove(&mut pt, &[x.clone(), x.clone()], &[x], &[m.clone()], &[m]),
            3 => BagMultitoolIOP::<E, MockPcs>::prove(&mut pt, &[x.clone()], &[x], &[m.clone()], &[m.clone(), m]),
            4 => BagMultitoolIOP::<E, MockPcs>::prove(&mut pt, &[x.clone()], &[x], &[big], &[m]),
            _ => BagEqIOP::<E, MockPcs>::prove(&mut pt, &x, &bigbag),
        }.is_err()
    });
    if pe == Ok(false) { return Err(format!("prover accepted mismatching arguments, kind {kind}").into()); }
    if kind < 4 {
        let ve = guarded(|| {
            let mut vt = new_vt::<MockPcs>(vp);
            let c: Vec<_> = cols[..3].iter().map(|c| vt.track_mat_comm(MockPcs::commit(24, &dmle(c)).unwrap()).unwrap()).collect();
            let x = bagc(&c, 0, nv);
            let m = c[2].clone();
            match kind {
                0 => BagMultitoolIOP::<E, MockPcs>::verify(&mut vt, &[], &[x], &[], &[m]),
                1 => BagMultitoolIOP::<E, MockPcs>::verify(&mut vt, &[x], &[], &[m], &[]),
                2 => BagMultitoolIOP::<E, MockPcs>::verify(&mut vt, &[x.clone(), x.clone()], &[x], &[m.clone()], &[m]),
                _ => BagMultitoolIOP::<E, MockPcs>::verify(&mut vt, &[x.clone()], &[x], &[m.clone()], &[m.clone(), m]),
            }.is_err()
        });
        if ve == Ok(false) { return Err(format!("verifier accepted mismatching arguments, kind {kind}").into()); }
    }
    Ok(true)
}
use zk_sql::subroutines::PolynomialCommitmentScheme;

/// The challenge of a first honest run is read off its inverse column; then columns are chosen that are
/// equal under that challenge only. Other columns have to lead to another challenge.
fn c13_adaptive(g: &mut Gen) -> R {
    let nv = g.nv(1, 3);
    let dom = *g.pick(&[4u64, 0]);
    let a = gen_bag(g, nv, dom);
    let mut b = a.clone();
    let mut perm: Vec<usize> = (0..a.len()).collect();
    g.shuffle(&mut perm);
    for i in 0..a.len() { b.v[i] = a.v[perm[i]]; b.s[i] = a.s[perm[i]]; }
    let (o, seen) = watch(4, || run_eq::<MockPcs>(&a, &b, 131));
    if !o.verdict.accepted() || seen.is_empty() || seen[0].len() != a.len() || seen[0][0].is_zero() { return Ok(false); }
    let gamma = a.v[0] - seen[0][0].inverse().unwrap();
    let term = |b: &B, i: usize| b.s[i] * (b.v[i] - gamma).inverse().unwrap_or(Fr::zero());
    let (mut x, mut y) = (a, b);
    let sum: Fr = (0..x.len()).map(|i| term(&x, i)).sum();
    // one side changes: one row freely, another so that the sums agree
    let left = g.bool();
    let z = if left { &mut x } else { &mut y };
    let act: Vec<usize> = (0..z.len()).filter(|i| !z.s[*i].is_zero()).collect();
    if act.len() < 2 { return Ok(false); }
    let (i, j) = (g.size(0, act.len() - 1), g.size(0, act.len() - 2));
    let (i, j) = (act[i], act[if j >= i { j + 1 } else { j }]);
    match g.below(3) { 0 => z.v[i] += Fr::one(), 1 => z.v[i] = g.fr_random(), _ => z.s[i] = Fr::zero() }
    let rest: Fr = (0..z.len()).filter(|k| *k != j).map(|k| term(z, k)).sum();
    if sum == rest { return Ok(false); }
    z.v[j] = gamma + z.s[j] * (sum - rest).inverse().unwrap();
    if x.weights() == y.weights() { return Ok(false); }
    g.note(format!("a={} b={} changed={}", x.show(), y.show(), if left { "a" } else { "b" }));
    let o = run_eq::<MockPcs>(&x, &y, 132);
    if o.verdict.accepted() { return Err("bags equal only under the challenge of another run were accepted".into()); }
    Ok(true)
}

// ---------------------------------------------------------------- C14
fn c14_adaptive(g: &mut Gen) -> R {
    let (na, nb) = (g.nv(1, 3), g.nv(1, 3));
    let dom = *g.pick(&[4u64, 9]);
    let mut a = gen_bag(g, na, dom);
    let mut b = gen_bag(g, nb, dom);
    if b.active().is_empty() { b.s[0] = Fr::one(); }
    let pool = b.active();
    for i in 0..a.len() { a.v[i] = *g.pick(&pool); }
    if a.active().is_empty() { a.s[0] = Fr::one(); }
    let (wa, wb) = (a.weights(), b.weights());
    let m: Vec<Fr> = (0..b.len()).map(|i| match (wa.get(&b.v[i]), wb.get(&b.v[i])) { (Some(x), Some(y)) => *x * y.inverse().unwrap(), _ => Fr::zero() }).collect();
    let adv = g.bool();
    let (o, seen) = watch(4 + adv as usize, || run_incl::<MockPcs>(&a, &b, if adv { Some(&m) } else { None }, 133));
    let at = !adv as usize; // the generated multiplicities come first
    if !o.verdict.accepted() || seen.len() <= at || seen[at].len() != a.len() || seen[at][0].is_zero() { return Ok(false); }
    let gamma = a.v[0] - seen[at][0].inverse().unwrap();
    let inv = |v: Fr| (v - gamma).inverse().unwrap_or(Fr::zero());
    let mut m = if adv { m } else { seen[0].clone() };
    // a value that does not occur in the super bag, or a wrong multiplicity, and one multiplicity that makes up for it
    let rows: Vec<usize> = (0..b.len()).filter(|i| !b.s[*i].is_zero()).collect();
    let j = *g.pick(&rows);
    let old = a.clone();
    if rows.len() < 2 || g.bool() {
        let i = g.size(0, a.len() - 1);
        a.s[i] = Fr::one();
        a.v[i] = if g.bool() { Fr::from(1000 + g.below(9)) } else { g.fr_random() };
    } else {
        let i = loop { let i = *g.pick(&rows); if i != j { break i; } if g.below(2) == 0 { break rows[(rows.iter().position(|x| *x == j).unwrap() + 1) % rows.len()]; } };
        m[i] += g.fr_nz();
    }
    if m.len() != b.len() { return Ok(false); }
    let sum: Fr = (0..a.len()).map(|i| a.s[i] * inv(a.v[i])).sum();
    let rest: Fr = (0..b.len()).filter(|i| *i != j).map(|i| m[i] * b.s[i] * inv(b.v[i])).sum();
    m[j] = (sum - rest) * (b.v[j] - gamma) * b.s[j].inverse().unwrap();
    g.note(format!("included={} (before {}) super={} multiplicities={} given={adv}", a.show(), old.show(), b.show(), shows(&m)));
    if a.weights() == weights(&b.v, &b.s, Some(&m)) { return Ok(false); }
    let o = if adv { run_incl::<MockPcs>(&a, &b, Some(&m), 134) } else {
        let m = m.clone();
        dishonest(4, move |k, w| if k == 0 && w.len() == m.len() { m.clone() } else { w }, || run_incl::<MockPcs>(&a, &b, None, 134))
    };
    if o.verdict.accepted() { return Err("an inclusion that holds only under the challenge of another run was accepted".into()); }
    Ok(true)
}
fn run_incl<P: TestPcs>(a: &B, b: &B, m: Option<&Vec<Fr>>, seed: u64) -> Outcome {
    let (x, y) = (a.nv(), b.nv());
    let mut cols = [a.cols(), b.cols()].concat();
    if let Some(m) = m { cols.push(m.clone()); }
    let adv = m.is_some();
    run_op::<P>(&cols, seed,
        |pt, c| if adv { BagInclusionIOP::<E, P>::prove_with_advice(pt, &bag(c, 0), &bag(c, 2), &c[4]) } else { BagInclusionIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2)) },
        |vt, c| if adv { BagInclusionIOP::<E, P>::verify_with_advice(vt, &bagc(c, 0, x), &bagc(c, 2, y), &c[4]) } else { BagInclusionIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y)) })
}
fn gen_incl(g: &mut Gen) -> (B, B, u64) {
    let dom = *g.pick(&[6u64, 3, 12, 0]);
    let dom = g.dom(dom);
    let (na, nb) = (g.nv(1, 3), g.nv(1, 3));
    let b = gen_bag(g, nb, dom);
    let pool = b.active();
    let n = 1usize << na;
    let mut v = vec![];
    let s = gen_sel(g, n);
    for i in 0..n {
        if !s[i].is_zero() && !pool.is_empty() { v.push(*g.pick(&pool)); } else { v.push(gen_val(g, dom)); }
    }
    let mut a = B { v, s };
    let mut b = b;
    match g.weighted(&[3, 2, 1]) { 0 => {}, 1 => { perturb(g, &mut a, dom); } _ => { perturb(g, &mut b, dom); } }
    (a, b, dom)
}
fn c14_plain(g: &mut Gen) -> R {
    let (a, b, _) = gen_incl(g);
    g.note(format!("included={} super={}", a.show(), b.show()));
    let want = a.set().is_subset(&b.set());
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_incl, &a, &b, None, 21);
    expect(g, &o, want, "bag inclusion")?;
    Ok(!a.set().is_empty())
}
fn c14_advice(g: &mut Gen) -> R {
    let (a, b, _) = gen_incl(g);
    // a valid multiplicity column if there is one: occurrences spread arbitrarily over the active rows of each value
    let w = a.weights();
    let mut m = vec![Fr::zero(); b.len()];
    for i in 0..b.len() { if b.s[i].is_zero() { m[i] = g.fr(); } }
    for (v, c) in &w {
        let rows: Vec<usize> = (0..b.len()).filter(|i| b.v[*i] == *v && !b.s[*i].is_zero()).collect();
        if rows.is_empty() { continue; }
        let mut rest = *c;
        for r in &rows[..rows.len() - 1] { let x = g.fr(); m[*r] = x; rest -= x; }
        m[*rows.last().unwrap()] = rest;
    }
    if g.bool() {
        let i = g.size(0, m.len() - 1);
        if g.bool() { m[i] += g.fr_nz(); } else { let j = g.size(0, m.len() - 1); m.swap(i, j); }
    }
    g.note(format!("included={} super={} m={}", a.show(), b.show(), shows(&m)));
    let want = w == weights(&b.v, &b.s, Some(&m));
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_incl, &a, &b, Some(&m), 22);
    expect(g, &o, want, "bag inclusion with multiplicities")?;
    Ok(!w.is_empty())
}

// ---------------------------------------------------------------- C15
fn run_sort<P: TestPcs>(a: &B, r: &B, seed: u64) -> Outcome {
    let (x, y) = (a.nv(), r.nv());
    run_op::<P>(&[a.cols(), r.cols()].concat(), seed,
        |pt, c| BagStrictSortIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2)),
        |vt, c| BagStrictSortIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y)))
}
fn gen_range(g: &mut Gen, nv: usize) -> B {
    let mut r = range_col(nv);
    match g.below(4) {
        0 => { g.shuffle(&mut r.v); }
        1 => { let i = g.size(0, r.len() - 1); r.v[i] = g.fr(); } // a hole, or an unusual step
        _ => {}
    }
    r
}
fn c15_sort(g: &mut Gen) -> R {
    let nv = g.nv(1, 3);
    let n = 1usize << nv;
    let rnv = g.nv(1, 4);
    let r = gen_range(g, rnv);
    // steps from the range
    let mut steps: Vec<Fr> = r.v.clone();
    steps.retain(|x| !x.is_zero());
    if steps.is_empty() { steps.push(Fr::one()); }
    let mut a = if g.chance(1, 5) { gen_bag(g, nv, 9) } else {
        let pad = if g.bool() { 0 } else { g.size(0, n) };
        let mut v = vec![];
        let mut x = if pad > 0 { Fr::zero() } else if g.bool() { Fr::from(g.below(5)) } else { g.fr() };
        for i in 0..n {
            if i >= pad.max(1) { x += *g.pick(&steps); }
            v.push(x);
        }
        B { v, s: (0..n).map(|i| fr((i >= pad) as i64)).collect() }
    };
    match g.weighted(&[4, 2, 1, 1, 1, 1]) {
        0 => {}
        1 => { perturb(g, &mut a, 9); }
        2 => { let i = g.size(0, n - 2); a.v[i + 1] = a.v[i]; } // equal neighbours
        3 => { let i = g.size(0, n - 2); a.v.swap(i, i + 1); }
        4 => { a.s = gen_sel(g, n); }
        _ => { let k = g.size(0, n - 1); a.v.rotate_left(k); }
    }
    g.note(format!("sorted={} range={}", a.show(), shows(&r.v)));
    let want = strict_sorted(&a, &r.v);
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_sort, &a, &r, 31);
    expect(g, &o, want, "strict sort")?;
    Ok(true)
}
/// A dishonest prover claims a different shifted column, so that all steps look fine.
fn c15_sort_forge(g: &mut Gen) -> R {
    let nv = g.size(1, 3);
    let n = 1usize << nv;
    let r = range_col(4);
    let mut a = gen_bag(g, nv, 12);
    if g.chance(1, 3) { a.v.sort(); }
    let kind = g.below(4);
    let (row, delta) = (g.size(0, n - 1), g.fr_nz());
    let truth = strict_sorted(&a, &r.v);
    g.note(format!("sorted={} forged shift kind {kind}", a.show()));
    let hit = Arc::new(Mutex::new(false));
    let h = hit.clone();
    let av = a.v.clone();
    let mut shifted = av.clone();
    shifted.rotate_left(1);
    let o = dishonest(4, move |_, mut w| {
        let orig = w.clone();
        if w == shifted {
            match kind {
                0 => for i in 0..w.len() { w[i] = av[i] + Fr::one(); }, // every step becomes one
                1 => for i in 0..w.len() - 1 { w[i] = av[i] + Fr::one(); },
                2 => { w.sort(); }
                _ => { w[row] += delta; }
            }
        }
        if w != orig { *h.lock().unwrap() = true; }
        w
    }, || run_sort::<MockPcs>(&a, &r, 32));
    let hit = *hit.lock().unwrap();
    if let Some(m) = &o.mirror { return Err(format!("verifier does not mirror the prover: {m}").into()); }
    if hit { g.tag("altered"); }
    let want = truth && !hit;
    if o.verdict.accepted() != want { return Err(format!("strict sort with forged shift: statement {truth}, forged {hit}, verdict {:?}", o.verdict).into()); }
    Ok(hit)
}
fn run_perm<P: TestPcs>(f: &B, h: &B, perm: &Vec<Fr>, seed: u64) -> Outcome {
    let nv = f.nv();
    run_op::<P>(&[f.cols(), h.cols(), vec![perm.clone()]].concat(), seed,
        |pt, c| BagPrescPermIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &c[4]),
        |vt, c| BagPrescPermIOP::<E, P>::verify(vt, &bagc(c, 0, nv), &bagc(c, 2, nv), &c[4]))
}
fn gen_perm(g: &mut Gen) -> (B, B, Vec<Fr>) {
    let nv = g.nv(1, 3);
    let n = 1usize << nv;
    let dom = *g.pick(&[3u64, 20, 0]);
    let dom = g.dom(dom);
    let f = gen_bag(g, nv, dom);
    let mut idx: Vec<usize> = (0..n).collect();
    g.shuffle(&mut idx);
    let mut h = B { v: idx.iter().map(|i| f.v[*i]).collect(), s: gen_sel(g, n) };
    let mut p: Vec<Fr> = idx.iter().map(|i| Fr::from(*i as u64)).collect();
    match g.weighted(&[3, 1, 1, 1, 1, 1]) {
        0 => {}
        5 => { let (i, j, d) = (g.size(0, n - 1), g.size(0, n - 1), g.fr_nz()); h.v[i] += d; h.v[j] -= d; } // same sum
        1 => { let (i, j) = (g.size(0, n - 1), g.size(0, n - 1)); h.v.swap(i, j); }
        2 => { let (i, j) = (g.size(0, n - 1), g.size(0, n - 1)); p.swap(i, j); }
        3 => { let (i, d) = (g.size(0, n - 1), g.fr_nz()); h.v[i] += d; }
        _ => { let i = g.size(0, n - 1); p[i] = if g.bool() { Fr::from(g.below(n as u64)) } else { g.fr() }; }
    }
    (f, h, p)
}
fn perm_holds(f: &B, h: &B, p: &[Fr]) -> bool {
    let mut x: Vec<(Fr, Fr)> = (0..f.len()).map(|i| (Fr::from(i as u64), f.v[i])).collect();
    let mut y: Vec<(Fr, Fr)> = (0..f.len()).map(|i| (p[i], h.v[i])).collect();
    x.sort();
    y.sort();
    x == y
}
fn c15_perm(g: &mut Gen) -> R {
    let (f, h, p) = gen_perm(g);
    g.note(format!("f={} g={} perm={}", f.show(), h.show(), shows(&p)));
    let want = perm_holds(&f, &h, &p);
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_perm, &f, &h, &p, 33);
    expect(g, &o, want, "prescribed permutation")?;
    Ok(true)
}
/// The combined columns (index + gamma * value) are replaced by something convenient.
fn c15_perm_forge(g: &mut Gen) -> R {
    let (f, h, p) = gen_perm(g);
    let truth = perm_holds(&f, &h, &p);
    let kind = g.below(3);
    let (row, delta) = (g.size(0, f.len() - 1), g.fr_nz());
    g.note(format!("f={} g={} perm={} forge {kind}", f.show(), h.show(), shows(&p)));
    let hit = Arc::new(Mutex::new(false));
    let h2 = hit.clone();
    let mut first: Option<Vec<Fr>> = None;
    let (fv, hv, pv) = (f.v.clone(), h.v.clone(), p.clone());
    let o = dishonest(5, move |k, mut w| {
        let orig = w.clone();
        match (kind, k) {
            (0, 0) => first = Some(w.clone()),
            (0, 1) => if let Some(x) = &first { w = x.clone(); }, // second combined column := the first
            (1, 0) => { // first := what the second will be
                if let Some(i) = (0..w.len()).find(|i| !fv[*i].is_zero()) {
                    let gamma = (w[i] - Fr::from(i as u64)) * fv[i].inverse().unwrap();
                    w = (0..w.len()).map(|i| pv[i] + gamma * hv[i]).collect();
                }
            }
            (2, 0) => w[row] += delta,
            _ => {}
        }
        if w != orig { *h2.lock().unwrap() = true; }
        w
    }, || run_perm::<MockPcs>(&f, &h, &p, 34));
    let hit = *hit.lock().unwrap();
    if hit { g.tag("altered"); }
    if let Some(m) = &o.mirror { return Err(format!("verifier does not mirror the prover: {m}").into()); }
    let want = truth && !hit;
    if o.verdict.accepted() != want { return Err(format!("prescribed permutation with forged columns: statement {truth}, forged {hit}, verdict {:?}", o.verdict).into()); }
    Ok(hit)
}

/// the challenge of a first run is read off its folded column, then values are chosen that are a permutation under it only
fn c15_perm_adaptive(g: &mut Gen) -> R {
    let nv = g.nv(1, 3);
    let n = 1usize << nv;
    let f = B { v: g.fr_vec(n), s: vec![Fr::one(); n] };
    let mut perm: Vec<usize> = (0..n).collect();
    g.shuffle(&mut perm);
    let mut h = f.clone();
    for i in 0..n { h.v[i] = f.v[perm[i]]; }
    let p: Vec<Fr> = perm.iter().map(|x| Fr::from(*x as u64)).collect();
    let Some(i) = (0..n).find(|i| !f.v[*i].is_zero()) else { return Ok(false) };
    let (o, seen) = watch(5, || run_perm::<MockPcs>(&f, &h, &p, 135));
    if !o.verdict.accepted() || seen.is_empty() || seen[0].len() != n { return Ok(false); }
    let gamma = (seen[0][i] - Fr::from(i as u64)) * f.v[i].inverse().unwrap();
    let Some(d) = gamma.inverse() else { return Ok(false) };
    // two positions exchanged: folded values stay a permutation of each other
    let (x, y) = (g.size(0, n - 1), g.size(0, n - 2));
    let y = if y >= x { y + 1 } else { y };
    let right = g.bool();
    let (mut f2, mut h2) = (f.clone(), h.clone());
    if right {
        h2.v[x] = (p[y] + gamma * h.v[y] - p[x]) * d;
        h2.v[y] = (p[x] + gamma * h.v[x] - p[y]) * d;
    } else {
        let (ix, iy) = (Fr::from(x as u64), Fr::from(y as u64));
        f2.v[x] = (iy + gamma * f.v[y] - ix) * d;
        f2.v[y] = (ix + gamma * f.v[x] - iy) * d;
    }
    if (0..n).all(|i| h2.v[i] == f2.v[perm[i]]) { return Ok(false); }
    g.note(format!("f={} g={} perm={}", shows(&f2.v), shows(&h2.v), shows(&p)));
    let o = run_perm::<MockPcs>(&f2, &h2, &p, 136);
    if o.verdict.accepted() { return Err("values permuted only under the challenge of another run were accepted".into()); }
    Ok(true)
}

// ---------------------------------------------------------------- C16
fn run_supp<P: TestPcs>(a: &B, sp: &B, m: Option<&Vec<Fr>>, r: &B, seed: u64) -> Outcome {
    let (x, y, z) = (a.nv(), sp.nv(), r.nv());
    let mut cols = [a.cols(), sp.cols(), r.cols()].concat();
    if let Some(m) = m { cols.push(m.clone()); }
    let adv = m.is_some();
    run_op::<P>(&cols, seed,
        |pt, c| if adv { BagSuppIOP::<E, P>::prove_with_advice(pt, &bag(c, 0), &bag(c, 2), &c[6], &bag(c, 4)) } else { BagSuppIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4)) },
        |vt, c| if adv { BagSuppIOP::<E, P>::verify_with_advice(vt, &bagc(c, 0, x), &bagc(c, 2, y), &c[6], &bagc(c, 4, z)) } else { BagSuppIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y), &bagc(c, 4, z)) })
}
fn gen_supp(g: &mut Gen) -> (B, B, B) {
    let dom = *g.pick(&[4u64, 10, 16]);
    let dom = g.dom(dom);
    let nv = g.nv(1, 3);
    let a = gen_bag(g, nv, dom);
    let mut vals: Vec<Fr> = a.set().into_iter().collect();
    match g.weighted(&[5, 1, 1]) {
        0 => {}
        1 => if !vals.is_empty() { let i = g.size(0, vals.len() - 1); vals.remove(i); }, // missing
        _ => { let x = Fr::from(g.below(dom)); if !vals.contains(&x) { vals.push(x); } } // extra
    }
    let snv = min_nv(vals.len()).max(if g.bool() { nv } else { 0 });
    let mut sp = sorted_layout(&vals, snv);
    if g.chance(1, 4) { perturb(g, &mut sp, dom); }
    (a, sp, range_col(g.or(4, 9) as usize))
}
fn supp_holds(a: &B, sp: &B, m: &[Fr], r: &B) -> bool {
    a.weights() == weights(&sp.v, &sp.s, Some(m)) && (0..sp.len()).all(|i| sp.s[i].is_zero() || !m[i].is_zero()) && strict_sorted(sp, &r.v)
}
/// multiplicities the way any honest prover must choose them: all of a value's occurrences on one active row
fn mults(a: &B, sp: &B) -> Vec<Fr> {
    let mut w = a.weights();
    (0..sp.len()).map(|i| if sp.s[i].is_zero() { Fr::zero() } else { w.remove(&sp.v[i]).unwrap_or(Fr::zero()) }).collect()
}
fn c16_plain(g: &mut Gen) -> R {
    let (a, sp, r) = gen_supp(g);
    g.note(format!("bag={} supp={}", a.show(), sp.show()));
    let want = supp_holds(&a, &sp, &mults(&a, &sp), &r);
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_supp, &a, &sp, None, &r, 41);
    expect(g, &o, want, "support")?;
    Ok(a.set().len() > 1)
}
fn c16_advice(g: &mut Gen) -> R {
    let (a, sp, r) = gen_supp(g);
    let mut m = mults(&a, &sp);
    for i in 0..sp.len() { if sp.s[i].is_zero() { m[i] = g.fr(); } }
    if g.chance(1, 3) { let i = g.size(0, m.len() - 1); m[i] += g.fr_nz(); }
    // split over duplicated support rows, when there are any
    if sp.len() > 1 && g.chance(1, 3) { let i = g.size(0, m.len() - 2); let d = g.fr(); m[i] += d; m[i + 1] -= d; }
    g.note(format!("bag={} supp={} m={}", a.show(), sp.show(), shows(&m)));
    let want = supp_holds(&a, &sp, &m, &r);
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_supp, &a, &sp, Some(&m), &r, 42);
    expect(g, &o, want, "support with multiplicities")?;
    Ok(a.set().len() > 1)
}
/// honest support from the advice generator is always provable
fn c16_generated(g: &mut Gen) -> R {
    let nv = g.nv(1, 4);
    let dom = *g.pick(&[4u64, 12, 31]);
    let dom = g.dom(dom);
    let a = gen_bag(g, nv, dom);
    g.note(format!("bag={}", a.show()));
    let adv = guarded(|| {
        let mut pt = PT::<MockPcs>::new_from_pcs_params(24);
        let c: Vec<_> = a.cols().iter().map(|c| pt.track_mat_poly(dmle(c))).collect();
        calc_bag_supp_advice(&bag(&c, 0)).map(|(x, y, z)| (x.evaluations, y.evaluations, z.evaluations))
    });
    let (v, s, m) = match adv { Ok(Ok(x)) => x, o => return Err(format!("advice failed: {o:?}").into()) };
    let sp = B { v, s };
    let want: Vec<Fr> = a.set().into_iter().collect();
    let got = sp.active();
    if got != want { return Err(format!("generated support {} is not the sorted set {}", sp.show(), shows(&want)).into()); }
    let r = range_col(g.or(5, 9) as usize);
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_supp, &a, &sp, Some(&m), &r, 43);
    expect(g, &o, true, "generated support")?;
    Ok(want.len() > 1)
}

// ---------------------------------------------------------------- C17
fn run_disj<P: TestPcs>(a: &B, b: &B, adv: Option<(&B, &Vec<Fr>, &Vec<Fr>)>, r: &B, set: bool, seed: u64) -> Outcome {
    let (x, y, z) = (a.nv(), b.nv(), r.nv());
    let mut cols = [a.cols(), b.cols(), r.cols()].concat();
    let mut cn = 0;
    if let Some((c, ma, mb)) = adv { cols.extend(c.cols()); cols.push(ma.clone()); cols.push(mb.clone()); cn = c.nv(); }
    let has = adv.is_some();
    run_op::<P>(&cols, seed,
        |pt, c| if set { SetDisjointIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4)) }
            else if has { BagDisjointIOP::<E, P>::prove_with_advice(pt, &bag(c, 0), &bag(c, 2), &bag(c, 6), &c[8], &c[9], &bag(c, 4)) }
            else { BagDisjointIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4)) },
        |vt, c| if set { SetDisjointIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y), &bagc(c, 4, z)) }
            else if has { BagDisjointIOP::<E, P>::verify_with_advice(vt, &bagc(c, 0, x), &bagc(c, 2, y), &bagc(c, 6, cn), &c[8], &c[9], &bagc(c, 4, z)) }
            else { BagDisjointIOP::<E, P>::verify(vt, &bagc(c, 0, x), &bagc(c, 2, y), &bagc(c, 4, z)) })
}
/// two columns over 0..16, usually disjoint, sometimes sharing exactly one value
pub fn gen_two(g: &mut Gen, distinct: bool) -> (B, B) {
    let w = g.or(16, 400);
    let mut dom: Vec<Fr> = (0..w).map(Fr::from).collect();
    g.shuffle(&mut dom);
    let k = g.size(0, w as usize);
    let (pa, pb) = dom.split_at(k);
    let (pa, pb) = (pa.to_vec(), pb.to_vec());
    let mut mk = |g: &mut Gen, pool: &[Fr]| -> B {
        let nv = g.nv(1, 3);
        let n = 1usize << nv;
        let few = g.large && g.chance(1, 3);
        let pool = if few { &pool[..pool.len().min(2)] } else { pool };
        let k = if pool.is_empty() { 0 } else { g.size(0, n) };
        let vals: Vec<Fr> = if distinct { let mut p = pool.to_vec(); g.shuffle(&mut p); p.truncate(k); p } else { (0..k).map(|_| *g.pick(pool)).collect() };
        let sh = g.bool();
        layout(g, &vals, nv, w, sh)
    };
    let mut a = mk(g, &pa);
    let b = mk(g, &pb);
    if g.chance(2, 5) {
        // one active row of `a` takes an active value of `b` (a value new to `a`)
        let rows: Vec<usize> = (0..a.len()).filter(|i| !a.s[*i].is_zero()).collect();
        let act = b.active();
        if !rows.is_empty() && !act.is_empty() { let i = *g.pick(&rows); a.v[i] = *g.pick(&act); }
    }
    if g.bool() { (a, b) } else { (b, a) }
}
fn c17_bag(g: &mut Gen) -> R {
    let (a, b) = gen_two(g, false);
    g.note(format!("a={} b={}", a.show(), b.show()));
    let r = range_col(g.or(4, 9) as usize);
    let want = a.set().is_disjoint(&b.set());
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_disj, &a, &b, None, &r, false, 51);
    expect(g, &o, want, "bag disjointness")?;
    Ok(!a.set().is_empty() && !b.set().is_empty())
}
fn c17_set(g: &mut Gen) -> R {
    let (a, b) = gen_two(g, true);
    g.note(format!("a={} b={}", a.show(), b.show()));
    let r = range_col(g.or(4, 9) as usize);
    let want = a.set().is_disjoint(&b.set());
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_disj, &a, &b, None, &r, true, 52);
    expect(g, &o, want, "set disjointness")?;
    Ok(!a.set().is_empty() && !b.set().is_empty())
}
fn c17_advice(g: &mut Gen) -> R {
    let (a, b) = gen_two(g, false);
    let r = range_col(g.or(4, 9) as usize);
    let (sa, sb) = (a.set(), b.set());
    // a candidate merged bag and multiplicities; may repeat a shared value, drop or invent values
    let mut all: Vec<Fr> = sa.iter().chain(&sb).copied().collect();
    all.sort();
    let mode = g.weighted(&[4, 2, 1, 1]);
    if mode != 1 { all.dedup(); } // 1: shared values listed twice
    if mode == 2 && !all.is_empty() { let i = g.size(0, all.len() - 1); all.remove(i); }
    if mode == 3 { all.push(Fr::from(g.below(g.or(16, 400)))); }
    let mut c = sorted_layout(&all, min_nv(all.len()).max(a.nv().max(b.nv()) + 1));
    if g.chance(1, 6) { perturb(g, &mut c, 16); }
    let (mut wa, mut wb) = (a.weights(), b.weights());
    let mut ma = vec![];
    let mut mb = vec![];
    for i in 0..c.len() {
        if c.s[i].is_zero() { if g.bool() { ma.push(g.fr()); mb.push(Fr::zero()); } else { ma.push(Fr::zero()); mb.push(g.fr()); } continue; }
        // a shared value listed twice: one row for each side
        match wa.remove(&c.v[i]) { Some(x) => { ma.push(x); if mode == 1 { mb.push(Fr::zero()); continue; } } None => ma.push(Fr::zero()) }
        mb.push(wb.remove(&c.v[i]).unwrap_or(Fr::zero()));
    }
    if g.chance(1, 5) { let i = g.size(0, ma.len() - 1); if g.bool() { ma[i] += g.fr_nz(); } else { mb[i] += g.fr_nz(); } }
    // the products of the multiplicities sum to zero over inactive and shared rows
    let free: Vec<usize> = (0..c.len()).filter(|i| c.s[*i].is_zero()).collect();
    if free.len() > 1 && g.chance(1, 3) {
        let x = g.fr_nz();
        ma[free[0]] = x; mb[free[0]] = x;
        ma[free[1]] = Fr::one();
        mb[free[1]] = Fr::zero();
        mb[free[1]] = -ma.iter().zip(&mb).map(|(x, y)| *x * y).sum::<Fr>();
        g.tag("cancelling");
    }
    g.note(format!("a={} b={} c={} ma={} mb={}", a.show(), b.show(), c.show(), shows(&ma), shows(&mb)));
    let want = strict_sorted(&c, &r.v) && ma.iter().zip(&mb).all(|(x, y)| x.is_zero() || y.is_zero())
        && a.weights() == weights(&c.v, &c.s, Some(&ma)) && b.weights() == weights(&c.v, &c.s, Some(&mb));
    if want && !sa.is_disjoint(&sb) { return Err("reference relation admits sharing bags: oracle error".into()); }
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_disj, &a, &b, Some((&c, &ma, &mb)), &r, false, 53);
    expect(g, &o, want, "bag disjointness with advice")?;
    Ok(!sa.is_empty() && !sb.is_empty())
}
/// The prover of the set operator forges the merged column: drops, changes or deactivates the shared value.
fn c17_forge(g: &mut Gen) -> R {
    let (a, b) = gen_two(g, true);
    let disjoint = a.set().is_disjoint(&b.set());
    let kind = g.below(4);
    g.note(format!("a={} b={} forge {kind}", a.show(), b.show()));
    let every = [a.active(), b.active()].concat();
    let nv = a.nv().max(b.nv()) + 1;
    let dedup = counted_layout(&every, nv, kind == 3);
    let hit = Arc::new(Mutex::new(false));
    let h = hit.clone();
    let o = dishonest(6, move |k, w| {
        // first two internal commitments with the merged size: values and selector
        let orig = w.clone();
        let w = match (k, kind) { (0, _) if w.len() == dedup.len() => dedup.v.clone(), (1, 0 | 1 | 3) if w.len() == dedup.len() => dedup.s.clone(), _ => w };
        if w != orig { *h.lock().unwrap() = true; }
        w
    }, || run_disj::<MockPcs>(&a, &b, None, &range_col(4), true, 54));
    if *hit.lock().unwrap() { g.tag("altered"); }
    if o.verdict.accepted() && !disjoint { return Err(format!("sets sharing a value accepted as disjoint with a forged merge").into()); }
    Ok(!disjoint)
}

// ---------------------------------------------------------------- C24
fn run_sel<P: TestPcs>(s: &Vec<Fr>, seed: u64) -> Outcome {
    run_op::<P>(&[s.clone()], seed, |pt, c| SelectorValidIOP::<E, P>::prove(pt, &c[0]), |vt, c| SelectorValidIOP::<E, P>::verify(vt, &c[0]))
}
fn c24_sel(g: &mut Gen) -> R {
    let nv = g.nv(1, 5);
    let mut s = gen_sel(g, 1 << nv);
    let k = g.weighted(&[2, 2, 1]);
    for _ in 0..k {
        let i = g.size(0, s.len() - 1);
        s[i] = if k == 2 { let x = g.fr(); if g.bool() { s[0] = Fr::one() - x; } x } else { g.fr() };
    }
    if g.chance(1, 5) { cancel_bool(g, &mut s); g.tag("cancelling"); }
    g.note(format!("selector={}", shows(&s)));
    let want = s.iter().all(|x| x.is_zero() || x.is_one());
    let sc = pick_scheme(g, 10);
    let o = with_scheme!(sc, run_sel, &s, 61);
    expect(g, &o, want, "selector validity")?;
    Ok(true)
}
fn run_nz<P: TestPcs>(b: &B, seed: u64) -> Outcome {
    let nv = b.nv();
    run_op::<P>(&b.cols(), seed, |pt, c| BagNoZerosIOP::<E, P>::prove(pt, &bag(c, 0)), |vt, c| BagNoZerosIOP::<E, P>::verify(vt, &bagc(c, 0, nv)))
}
fn gen_nz(g: &mut Gen) -> B {
    let nv = g.nv(1, 5);
    let n = 1usize << nv;
    let s = gen_sel(g, n);
    let v = (0..n).map(|i| if s[i].is_zero() && g.bool() { Fr::zero() } else { g.fr_nz() }).collect();
    let mut b = B { v, s };
    if g.bool() { let i = g.size(0, n - 1); b.v[i] = Fr::zero(); }
    b
}
fn c24_nz(g: &mut Gen) -> R {
    let b = gen_nz(g);
    g.note(format!("bag={}", b.show()));
    let want = (0..b.len()).all(|i| b.s[i].is_zero() || !b.v[i].is_zero());
    let sc = pick_scheme(g, 10);
    let o = with_scheme!(sc, run_nz, &b, 62);
    expect(g, &o, want, "no zeros")?;
    Ok(b.s.iter().any(|x| !x.is_zero()))
}
fn c24_nz_forge(g: &mut Gen) -> R {
    let b = gen_nz(g);
    let i = g.size(0, b.len() - 1);
    let d = g.fr_nz();
    // two wrong inverses whose errors sum to zero
    let mut second = None;
    let mut d = d;
    if g.bool() && b.len() > 1 {
        let j = (i + g.size(1, b.len() - 1)) % b.len();
        let zero: Vec<usize> = (0..b.len()).filter(|k| b.v[*k].is_zero() && !b.s[*k].is_zero()).collect();
        if !b.v[i].is_zero() && !b.s[i].is_zero() {
            if zero.len() == 1 { d = b.v[i].inverse().unwrap(); second = Some((i, Fr::zero())); }
            else if !b.v[j].is_zero() && !b.s[j].is_zero() { second = Some((j, -d * b.v[i] * b.v[j].inverse().unwrap())); }
        }
        if second.is_some() { g.tag("cancelling"); }
    }
    g.note(format!("bag={} forged inverse at {i} by {} and {second:?}", b.show(), show(&d)));
    let truth = (0..b.len()).all(|i| b.s[i].is_zero() || !b.v[i].is_zero());
    let o = dishonest(2, move |k, mut w| { if k == 0 { w[i] += d; if let Some((j, e)) = second { w[j] += e; } } w }, || run_nz::<MockPcs>(&b, 63));
    // only inverses of inactive or zero rows are free
    let want = truth && b.s[i].is_zero();
    if o.verdict.accepted() != want { return Err(format!("no zeros with a forged inverse: verdict {:?}, expected {want}", o.verdict).into()); }
    Ok(!b.s[i].is_zero())
}

pub fn props() -> Vec<Prop> {
    let ass = vec![
        "most cases run on an ideal commitment scheme (a commitment is the evaluation table); one case in about twelve runs on the repository's KZG scheme",
        "soundness errors of the underlying argument (about 2^-240 per case) are treated as impossible",
        "columns have 2 to 32 rows; columns of a single row (no variables) are outside the library's domain"];
    vec![
        Prop { id: "C13", rule: "bags, selectors and multiplicities from small domains (so values repeat) or the whole field, dealt over 1-3 bags per side of 2-16 rows, half of them edited in one place; non-trivial: some value has a non-zero weight (or a prover column was really altered)",
            families: vec![fam("multi", 12000, 400000, c13_multi).dbg(5), fam("eq", 9000, 300000, c13_eq).dbg(5), fam("sum", 9000, 300000, c13_sum).dbg(5), fam("forged-inverses", 5000, 150000, c13_forge), fam("multi-forging", 2000, 60000, forged!(c13_multi)), fam("eq-forging", 2000, 60000, forged!(c13_eq)), fam("sum-forging", 2000, 60000, forged!(c13_sum)), fam("shapes", 400, 4000, c13_shape), fam("multi-limbs", 1500, 50000, limbs!(c13_multi)), fam("eq-adaptive", 2500, 80000, c13_adaptive), fam("eq-limbs", 1500, 50000, limbs!(c13_eq)), fam("sum-limbs", 1500, 50000, limbs!(c13_sum)), fam("multi-long", 240, 12000, crate::long!(c13_multi)), fam("multi-large", 720, 60000, large!(c13_multi)), fam("eq-large", 720, 60000, large!(c13_eq)), fam("sum-large", 720, 60000, large!(c13_sum)), fam("eq-huge", 6, 300, huge!(c13_eq)), fam("multi-shared", 1500, 45000, crate::shared!(c13_multi)), fam("eq-shared", 1200, 36000, crate::shared!(c13_eq)), fam("sum-shared", 1200, 36000, crate::shared!(c13_sum))], assumptions: ass.clone() },
        Prop { id: "C14", rule: "super bags from small domains, included bags drawn from their active rows, one edit in half of them; multiplicities spread arbitrarily over equal rows, half altered; non-trivial: the included bag has an active row",
            families: vec![fam("plain", 12000, 400000, c14_plain).dbg(5), fam("advice", 12000, 400000, c14_advice), fam("adaptive", 2500, 80000, c14_adaptive), fam("plain-forging", 2500, 75000, forged!(c14_plain)), fam("advice-forging", 2500, 75000, forged!(c14_advice)), fam("plain-limbs", 2500, 80000, limbs!(c14_plain)).dbg(5), fam("advice-limbs", 1500, 50000, limbs!(c14_advice)), fam("plain-large", 960, 80000, large!(c14_plain)), fam("advice-large", 720, 60000, large!(c14_advice)), fam("plain-huge", 6, 400, huge!(c14_plain)), fam("plain-shared", 1500, 45000, crate::shared!(c14_plain)), fam("advice-shared", 1500, 45000, crate::shared!(c14_advice))], assumptions: ass.clone() },
        Prop { id: "C15", rule: "increasing columns built from steps of the range (with padding, holes in the range, arbitrary start) and edited; gathers by random permutations with edits of values or permutation; provers that replace the helper columns; non-trivial: every case, or the helper column was really replaced",
            families: vec![fam("sort", 9000, 300000, c15_sort).dbg(5), fam("sort-forged", 3500, 100000, c15_sort_forge), fam("perm", 9000, 300000, c15_perm).dbg(5), fam("perm-forged", 3500, 100000, c15_perm_forge), fam("sort-forging", 2500, 75000, forged!(c15_sort)), fam("perm-forging", 2500, 75000, forged!(c15_perm)), fam("sort-large", 720, 60000, large!(c15_sort)), fam("perm-adaptive", 2000, 60000, c15_perm_adaptive), fam("perm-limbs", 1500, 50000, limbs!(c15_perm)), fam("perm-large", 720, 60000, large!(c15_perm)), fam("sort-shared", 1200, 36000, crate::shared!(c15_sort)), fam("perm-shared", 1200, 36000, crate::shared!(c15_perm))], assumptions: ass.clone() },
        Prop { id: "C16", rule: "bags with duplicates and candidate supports (right, missing, extra, edited), multiplicities right or altered; non-trivial: at least two distinct active values",
            families: vec![fam("plain", 6000, 200000, c16_plain).dbg(5), fam("advice", 7000, 200000, c16_advice), fam("generated", 4000, 120000, c16_generated).dbg(5), fam("plain-forging", 2000, 60000, forged!(c16_plain)), fam("advice-forging", 2000, 60000, forged!(c16_advice)), fam("plain-large", 720, 60000, large!(c16_plain)), fam("advice-large", 480, 40000, large!(c16_advice)), fam("generated-large", 480, 40000, large!(c16_generated)), fam("generated-huge", 6, 300, huge!(c16_generated)), fam("plain-shared", 1000, 30000, crate::shared!(c16_plain)), fam("advice-shared", 1000, 30000, crate::shared!(c16_advice))], assumptions: ass.clone() },
        Prop { id: "C17", rule: "two columns over 0..16, disjoint or sharing one value (also only in inactive rows), with honest and manipulated merged bags; non-trivial: both sides have an active value (forged merges: they share one)",
            families: vec![fam("bag", 4500, 150000, c17_bag).dbg(5), fam("set", 5000, 150000, c17_set).dbg(5), fam("advice", 5000, 150000, c17_advice), fam("set-forged", 4000, 100000, c17_forge), fam("bag-forging", 1500, 45000, forged!(c17_bag)), fam("set-forging", 1500, 45000, forged!(c17_set)), fam("advice-forging", 1500, 45000, forged!(c17_advice)), fam("bag-large", 600, 50000, large!(c17_bag)), fam("set-large", 600, 50000, large!(c17_set)), fam("advice-large", 480, 40000, large!(c17_advice)), fam("bag-shared", 900, 27000, crate::shared!(c17_bag)), fam("set-shared", 900, 27000, crate::shared!(c17_set)), fam("advice-shared", 900, 27000, crate::shared!(c17_advice))], assumptions: ass.clone() },
        Prop { id: "C24", rule: "selector columns with none, one or two arbitrary entries; bags with none or one zero among active or inactive rows; provers with one wrong inverse; non-trivial: some row is active",
            families: vec![fam("selector", 12000, 300000, c24_sel).dbg(5), fam("no-zeros", 12000, 300000, c24_nz).dbg(5), fam("no-zeros-forged", 6000, 200000, c24_nz_forge), fam("no-zeros-forging", 3000, 90000, forged!(c24_nz)), fam("selector-large", 2400, 120000, large!(c24_sel)), fam("no-zeros-large", 2400, 120000, large!(c24_nz)), fam("no-zeros-shared", 1200, 36000, crate::shared!(c24_nz))], assumptions: ass },
    ]
}

/// statements for proofs of several operators (C27)
pub fn parts() -> Vec<super::compose::Part> {
    vec![("multiplicities", c13_multi), ("bag equality", c13_eq), ("bag sum", c13_sum), ("inclusion", c14_plain), ("inclusion with advice", c14_advice), ("strict sort", c15_sort), ("prescribed permutation", c15_perm),
        ("support", c16_plain), ("support with advice", c16_advice), ("bag disjoint", c17_bag), ("set disjoint", c17_set), ("disjoint with advice", c17_advice), ("selector", c24_sel), ("no zeros", c24_nz)]
}
