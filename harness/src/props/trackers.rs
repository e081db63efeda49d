//! C09-C12, C26: the two trackers.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::props::arith::*;
use crate::props::hist::*;
use crate::props::sumcheck::tamper_msgs;
use crate::runner::*;
use crate::with_scheme;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use std::collections::BTreeSet;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hook::CompiledZKSQLProof;

fn err(e: impl std::fmt::Debug) -> Fail { format!("{e:?}").into() }
const ALG: Opt = Opt { max_steps: 14, max_nv: 6, grow_virtual: true, reads: true, max_deg: 6, commit_first: false, max_terms: 24, max_base: 4 };
fn alg(g: &Gen) -> Opt { Opt { max_nv: g.or(6, 10) as usize, max_base: g.or(4, 9) as usize, max_terms: g.lor(24, 80), ..ALG } }

// ---------------------------------------------------------------- C09
fn compare_node<P: TestPcs>(g: &mut Gen, r: &Ref, i: usize, p: &TP<P>) -> Result<(), Fail> {
    let n = &r.nodes[i];
    let bad = |w: &str, a: &[Fr], b: &[Fr]| -> Fail { format!("node {i}: {w}: {} instead of {}", shows(a), shows(b)).into() };
    if p.num_vars() != n.nv { return Err(format!("node {i}: {} variables instead of {}", p.num_vars(), n.nv).into()); }
    let z = if n.cube_only { let v = g.size(0, (1 << n.nv) - 1); vertex(v, n.nv) } else { point(g, n.nv) };
    let want = r.at(i, &z);
    // in any order: no reading may influence another
    for what in if g.bool() { [0, 1, 2] } else { [2, 1, 0] } {
        match what {
            0 => { let e = p.evaluations(); if e != n.tab { return Err(bad("values on the hypercube", &e, &n.tab)); } }
            1 => { let v = p.evaluate(&z); if v != Some(want) { return Err(bad(&format!("value at {}", shows(&z)), &v.into_iter().collect::<Vec<_>>(), &[want])); } }
            _ => {
                let v = p.to_arithmatic_virtual_poly();
                let x = v.evaluate(&z).map_err(err)?;
                if v.aux_info.num_variables != n.nv || x != want { return Err(bad(&format!("exported polynomial at {}", shows(&z)), &[x], &[want])); }
                if n.deg <= 1 && v.aux_info.max_degree > 1 { return Err(format!("node {i}: exported degree {}", v.aux_info.max_degree).into()); }
            }
        }
    }
    Ok(())
}
fn algebra(g: &mut Gen) -> R {
    let mut h = Hist::new(alg(g));
    h.bulk(g);
    let n = g.size(1, g.lor(14, 70));
    let mut run = new_prover::<MockPcs>();
    let mut copy: Option<(PRun<MockPcs>, usize, bool)> = None;
    let mut ids = BTreeSet::new();
    let mut done = 0;
    for _ in 0..n {
        h.step(g);
        while done < h.steps.len() {
            let next = run.pt.get_next_id();
            let before = run.polys.len();
            prover_step(&mut run, &h.steps[done]).map_err(err)?;
            if run.polys.len() > before {
                let id = run.polys[before].id;
                if !ids.insert(id.0) { return Err(format!("identifier {} used twice", id.0).into()); }
                if matches!(h.steps[done], St::Commit(_) | St::Track(_)) && id != next { return Err(format!("announced identifier {} but used {}", next.0, id.0).into()); }
            }
            done += 1;
        }
        if run.polys.len() > 0 && g.chance(1, 8) { let r = reference(&h.steps, &run.chals); let i = g.size(0, run.polys.len() - 1); compare_node(g, &r, i, &run.polys[i])?; }
        // a deep copy, worked on while the original stays or continues
        if copy.is_none() && run.polys.len() > 0 && g.chance(1, 6) {
            let pt = run.pt.deep_copy();
            let inner = pt.clone_underlying_tracker();
            // polynomials of the copy are reached through the copy's own handles
            let root = { let mut p2 = pt.clone(); p2.track_mat_poly(dmle(&frs(&[0, 0]))).tracker };
            let polys = run.polys.iter().map(|p| TP::<MockPcs>::new(p.id, p.num_vars, root.clone())).collect::<Vec<_>>();
            let mut c = PRun { pt, polys, chals: run.chals.clone() };
            // the copy draws what the original would draw
            let a = c.pt.deep_copy().get_and_append_challenge(b"zkv x").ok();
            let b = run.pt.deep_copy().get_and_append_challenge(b"zkv x").ok();
            if a != b { return Err("a deep copy draws another challenge".into()); }
            let idc = run.pt.get_next_id();
            if inner.id_counter != idc.0 { return Err("a deep copy has another counter".into()); }
            let k = c.polys.len();
            let j = g.size(0, k - 1);
            for s in [St::Append(Fr::one()), St::Commit(frs(&[9, 9])), St::Add(j, j), St::Zero(j), St::Sum(j, false)] { prover_step(&mut c, &s).map_err(err)?; }
            let t0 = run.pt.clone_underlying_tracker();
            let (cl, mats) = (h.steps.iter().filter(|s| matches!(s, St::Sum(..) | St::Zero(_))).count(), h.steps.iter().filter(|s| matches!(s, St::Commit(_))).count());
            if run.pt.get_next_id() != idc || t0.sum_check_claims.len() + t0.zero_check_claims.len() != cl || t0.materialized_comms.len() != mats { return Err("working on a deep copy changes the original".into()); }
            if run.pt.deep_copy().get_and_append_challenge(b"zkv x").ok() != b { return Err("working on a deep copy changes the original's transcript".into()); }
            copy = Some((c, h.steps.len(), true));
            g.tag("deep-copy");
        }
    }
    g.note(h.show());
    let r = reference(&h.steps, &run.chals);
    for i in 0..run.polys.len() { compare_node(g, &r, i, &run.polys[i])?; }
    // once more, after everything was read
    for i in 0..run.polys.len() { compare_node(g, &r, i, &run.polys[i])?; }
    if let Some((c, at, _)) = &copy {
        let r0 = reference(&h.steps[..*at], &run.chals);
        for i in 0..r0.nodes.len() { compare_node(g, &r0, i, &c.polys[i]).map_err(|e| Fail::from(format!("in the deep copy: {}", e.msg)))?; }
    }
    // refused combinations
    let k = run.polys.len();
    if k > 0 {
        let a = g.size(0, k - 1);
        if let Some(b) = (0..k).find(|i| r.nodes[*i].nv != r.nodes[a].nv) {
            let (x, y) = (&run.polys[a], &run.polys[b]);
            if guarded(|| x.add_poly(y)).is_ok() || guarded(|| x.sub_poly(y)).is_ok() || guarded(|| x.mul_poly(y)).is_ok() { return Err(format!("combining {} and {} variables is accepted", r.nodes[a].nv, r.nodes[b].nv).into()); }
            g.tag("mixed-sizes");
        }
        let mut o = new_prover::<MockPcs>();
        prover_step(&mut o, &St::Commit(vec![Fr::one(); 1 << r.nodes[a].nv])).map_err(err)?;
        let (x, y) = (&run.polys[a], &o.polys[0]);
        if guarded(|| x.add_poly(y)).is_ok() || guarded(|| x.sub_poly(y)).is_ok() || guarded(|| x.mul_poly(y)).is_ok() { return Err("combining polynomials of two trackers is accepted".into()); }
        let z = vec![Fr::one(); r.nodes[a].nv + 1];
        if matches!(guarded(|| x.evaluate(&z)), Ok(Some(_))) { return Err("evaluated at a point of the wrong length".into()); }
    }
    Ok(r.nodes.iter().any(|n| n.deg > 1 || n.terms > 1))
}

// ---------------------------------------------------------------- C10
fn mirror_run(g: &mut Gen, grow: bool) -> R {
    let mut h = Hist::new(Opt { grow_virtual: grow, max_steps: 14, reads: false, ..alg(g) });
    h.bulk(g);
    let n = g.size(1, g.lor(14, 70));
    for _ in 0..n {
        h.step(g);
        if h.len() > 0 && g.chance(1, 6) { let a = h.any(g); let s = if g.bool() { St::Sum(a, false) } else { St::Zero(a) }; h.push(s); }
    }
    if grow && h.len() > 0 { // make sure a virtual polynomial is grown
        let c: Vec<usize> = (0..h.len()).filter(|i| h.deg(*i) <= 3 && h.nv(*i) <= 3).collect();
        if !c.is_empty() { let a = *g.pick(&c); let b = h.mate(g, a); if h.deg(b) <= 3 { let m = h.push(St::Mul(a, b)); let k = g.size(1, 2); let s = if g.bool() { St::Front(m, k) } else { St::Back(m, k) }; h.push(s); } }
    }
    g.note(h.show());
    let mut p = new_prover::<MockPcs>();
    let mut v = new_verifier::<MockPcs>(CompiledZKSQLProof::default(), &vec![Fr::zero(); h.steps.len()]);
    let mode = g.bool();
    for s in &h.steps {
        let k = p.polys.len();
        let next = v.vt.get_next_id();
        if p.pt.get_next_id() != next { return Err(format!("next identifiers {} and {}", p.pt.get_next_id().0, next.0).into()); }
        prover_step(&mut p, s).map_err(err)?;
        match s {
            St::Commit(_) => {
                let t = p.pt.clone_underlying_tracker();
                let id = p.polys[k].id;
                let comm = t.materialized_comms.get(&id).ok_or("commitment missing")?.clone();
                if mode {
                    let mut pr = CompiledZKSQLProof::default();
                    pr.comms = t.materialized_comms.clone();
                    v.vt.set_compiled_proof(pr);
                    let c = v.vt.transfer_prover_comm(id);
                    v.comms.push(c);
                } else { let c = v.vt.track_mat_comm(comm.clone()).map_err(err)?; v.comms.push(c); }
                if v.vt.get_mat_comm(v.comms[k].id) != comm { return Err(format!("commitment of node {k}").into()); }
            }
            _ => verifier_step(&mut v, s).map_err(err)?,
        }
        if p.polys.len() != v.comms.len() { return Err("lengths".into()); }
        if p.polys.len() > k && p.polys[k].id != v.comms[k].id { return Err(format!("node {k}: identifiers {} and {}", p.polys[k].id.0, v.comms[k].id.0).into()); }
        if p.chals != v.chals { return Err("different challenges".into()); }
    }
    let (a, b) = (p.pt.deep_copy().get_and_append_challenge(b"zkv end").ok(), v.vt.deep_copy().get_and_append_challenge(b"zkv end").ok());
    if a != b { return Err("transcripts out of step at the end".into()); }
    let (tp, tv) = (p.pt.clone_underlying_tracker(), v.vt.clone_underlying_tracker());
    if tp.sum_check_claims.iter().map(|c| c.label).ne(tv.sum_check_claims.iter().map(|c| c.label)) || tp.zero_check_claims.iter().map(|c| c.label).ne(tv.zero_check_claims.iter().map(|c| c.label)) { return Err("claims differ".into()); }
    let r = reference(&h.steps, &p.chals);
    let mut grown = None;
    for i in 0..r.nodes.len() {
        let n = &r.nodes[i];
        let mut pts = vec![if n.cube_only { let x = g.size(0, (1 << n.nv) - 1); vertex(x, n.nv) } else { point(g, n.nv) }];
        pts.push({ let x = g.size(0, (1 << n.nv) - 1); vertex(x, n.nv) });
        for z in pts {
            // a value is never made up for a commitment whose evaluation is unknown
            if let St::Commit(_) = n.st { if z.iter().any(|x| !x.is_zero() && !x.is_one()) { if let Ok(Ok(x)) = guarded(|| v.comms[i].eval_virtual_comm(&z)) { if x != r.at(i, &z) { return Err(format!("node {i}: value {} made up", show(&x)).into()); } } } }
            fill_queries(&p.pt, &v.vt, &z);
            let want = r.at(i, &z);
            let got = v.comms[i].eval_virtual_comm(&z).map_err(err)?;
            if got != want { return Err(format!("node {i} at {}: verifier {} prover {}", shows(&z), show(&got), show(&want)).into()); }
        }
        if n.cube_only && grown.is_none() {
            let z: Vec<Fr> = (0..n.nv).map(|_| g.fr_random() + fr(2)).collect();
            fill_queries(&p.pt, &v.vt, &z);
            let (a, b) = (p.polys[i].evaluate(&z).unwrap(), v.comms[i].eval_virtual_comm(&z).map_err(err)?);
            if a != b && (a != r.at_mle(i, &z) || b != r.at(i, &z)) { return Err(format!("node {i} at {}: prover {} verifier {}", shows(&z), show(&a), show(&b)).into()); }
            if a != b { grown = Some(format!("node {i}, grown from a polynomial of degree 2 or more, at {}: prover {} verifier {}", shows(&z), show(&a), show(&b))); }
        }
    }
    if let Some(msg) = grown { return Err(Fail { sig: Some("D5-grow-virtual"), msg }); }
    Ok(r.nodes.iter().any(|n| n.deg > 1 || n.terms > 1))
}
fn mirror(g: &mut Gen) -> R { mirror_run(g, false) }
fn mirror_grown(g: &mut Gen) -> R { mirror_run(g, true) }

// ---------------------------------------------------------------- C11
/// a history with true claims only; at least one commitment
fn true_history(g: &mut Gen, max_nv: usize) -> Hist {
    let max_nv = if g.large { max_nv + 5 } else { max_nv };
    let max_base = g.or(4, 9) as usize;
    let mut h = Hist::new(Opt { max_steps: 10, max_nv, grow_virtual: false, reads: false, max_deg: 5, commit_first: true, max_terms: g.lor(24, 60), max_base });
    let nv = g.size(g.or(1, 6) as usize, max_nv.min(max_base));
    h.base(g, nv);
    if !matches!(h.steps[0], St::Commit(_)) { unreachable!() }
    h.bulk(g);
    let n = g.size(0, g.lor(9, 50));
    for _ in 0..n {
        h.step(g);
        if g.chance(1, 4) { true_claim(g, &mut h); }
    }
    let n = g.size(0, g.lor(3, 12));
    for _ in 0..n { true_claim(g, &mut h); }
    h
}
fn true_claim(g: &mut Gen, h: &mut Hist) {
    if g.bool() { let a = claimable(h, g); let f = g.bool(); h.push(St::Sum(a, f)); } else { let a = h.zero_node(g); h.push(St::Zero(a)); }
}
fn claims(h: &[St]) -> (usize, usize) { (h.iter().filter(|s| matches!(s, St::Sum(..))).count(), h.iter().filter(|s| matches!(s, St::Zero(_))).count()) }
fn complete(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 12);
    with_scheme!(sc, complete_on, g)
}
fn complete_on<P: TestPcs>(g: &mut Gen) -> R {
    let h = true_history(g, 5);
    g.note(h.show());
    let mut p = prover::<P>(&h.steps).map_err(err)?;
    let r = reference(&h.steps, &p.chals);
    let before = p.pt.clone_underlying_tracker();
    let proof = p.pt.compile_proof().map_err(|e| Fail::from(format!("true claims do not compile: {e:?}")))?;
    let sums = claim_sums(&h.steps, &r);
    for (s, want) in h.steps.iter().filter(|s| matches!(s, St::Sum(..))).zip(&sums) {
        if let St::Sum(a, _) = s { let got = proof.sumcheck_claims.get(&p.polys[*a].id); if got != Some(want) { return Err(format!("claimed sum of node {a} is {:?} instead of {}", got.map(show), show(want)).into()); } }
    }
    if proof.comms != before.materialized_comms { return Err("commitments of the proof".into()); }
    if proof.sc_aux_info.num_variables != max_nv(&r) { return Err(format!("number of variables {} instead of {}", proof.sc_aux_info.num_variables, max_nv(&r)).into()); }
    decide::<P>(&h.steps, &proof, &sums).map_err(|e| Fail::from(format!("true claims are refused: {e}")))?;
    // a second, independent verifier decides the same
    decide::<P>(&h.steps, &proof, &sums).map_err(|e| Fail::from(format!("refused the second time: {e}")))?;
    let (ns, nz) = claims(&h.steps);
    if ns > 0 && nz > 0 { g.tag("both-kinds"); }
    if r.nodes.iter().any(|n| n.nv != max_nv(&r)) { g.tag("mixed-sizes"); }
    Ok(ns + nz > 0)
}

// ---------------------------------------------------------------- C12
fn false_claims(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 20);
    with_scheme!(sc, false_on, g)
}
fn false_on<P: TestPcs>(g: &mut Gen) -> R {
    let mut h = true_history(g, 5);
    // false claims, possibly several chosen to cancel
    let mut bad: Vec<usize> = vec![]; // positions of false sum claims among the sum claims
    let mut deltas: Vec<Fr> = vec![];
    let nsum = |h: &Hist| claims(&h.steps).0;
    let d = g.fr_nz();
    match g.below(6) {
        0 | 1 => { // one false sum
            let a = claimable(&h, g);
            bad.push(nsum(&h)); deltas.push(d);
            h.push(St::Sum(a, false)); g.tag("false-sum");
        }
        2 => { // two false sums that cancel under equal weights
            for s in [d, -d] { let a = claimable(&h, g); bad.push(nsum(&h)); deltas.push(s); h.push(St::Sum(a, false)); }
            g.tag("cancelling-sums");
        }
        3 => { // a polynomial that is not zero at one vertex
            let nv = g.size(1, 4); let n = 1usize << nv;
            let k = g.size(0, n - 1);
            let b = h.push(St::Commit((0..n).map(|i| if i == k { d } else { Fr::zero() }).collect()));
            let z = if g.bool() { let s = h.zero_node(g); if h.nv(s) == nv && h.deg(s) < 5 { h.push(St::Add(s, b)) } else { b } } else { b };
            h.push(St::Zero(z)); g.tag("one-vertex");
        }
        4 => { // sum zero, or antisymmetric
            let nv = g.size(1, 4); let n = 1usize << nv;
            let k = g.size(0, n - 1);
            let j = if nv >= 2 && g.bool() { let a = g.size(0, nv - 2); let k2 = (k | 1 << a) & !(1 << (a + 1)); k2 ^ (3 << a) } else { (k + 1 + g.size(0, n - 2)) % n };
            let k = if nv >= 2 && (k ^ j).count_ones() == 2 { k } else { k };
            if j == k { return Ok(false); }
            let b = h.push(St::Commit((0..n).map(|i| if i == k { d } else if i == j { -d } else { Fr::zero() }).collect()));
            h.push(St::Zero(b)); g.tag("sum-zero");
        }
        _ => { // two non-zero polynomials that cancel under equal weights
            let nv = g.size(1, 4); let n = 1usize << nv;
            let t: Vec<Fr> = (0..n).map(|_| g.fr_nz()).collect();
            let b = h.push(St::Commit(t));
            let c = h.push(St::MulS(b, -Fr::one()));
            h.push(St::Zero(b)); h.push(St::Zero(c)); g.tag("cancelling-zero");
        }
    }
    if g.bool() { true_claim(g, &mut h); }
    g.note(h.show());
    let mut p = prover::<P>(&h.steps).map_err(err)?;
    let r = reference(&h.steps, &p.chals);
    let mut sums = claim_sums(&h.steps, &r);
    let scaled = g.bool();
    let m = max_nv(&r);
    let nodes: Vec<usize> = h.steps.iter().filter_map(|s| if let St::Sum(a, _) = s { Some(*a) } else { None }).collect();
    for (i, d) in bad.iter().zip(&deltas) { sums[*i] += *d * if scaled { Fr::from(1u64 << (m - r.nodes[nodes[*i]].nv)) } else { Fr::one() }; }
    let proof = match guarded(|| p.pt.compile_proof()) { Ok(Ok(x)) => x, _ => { g.tag("prover-refuses"); return Ok(true); } };
    if decide::<P>(&h.steps, &proof, &sums).is_ok() { return Err("a false claim is accepted".into()); }
    Ok(true)
}
fn non_constant(t: &[Fr]) -> bool { t.iter().any(|x| *x != t[0]) }
/// like true_history, with a commitment of full size that is not constant in any way
pub fn rich_history(g: &mut Gen, max: usize) -> Hist {
    let mut h = true_history(g, max);
    let nv = (0..h.len()).map(|i| h.nv(i)).max().unwrap();
    let t: Vec<Fr> = (0..1u64 << nv).map(|i| g.fr_random() + Fr::from(i + 1)).collect();
    let a = h.push(St::Commit(t));
    let f = g.bool();
    h.push(St::Sum(a, f));
    h
}
fn tampered(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 10);
    with_scheme!(sc, tampered_on, g)
}
fn tampered_on<P: TestPcs>(g: &mut Gen) -> R {
    let h = rich_history(g, 4);
    g.note(h.show());
    let mut p = prover::<P>(&h.steps).map_err(err)?;
    let r = reference(&h.steps, &p.chals);
    let proof = p.pt.compile_proof().map_err(err)?;
    let sums = claim_sums(&h.steps, &r);
    decide::<P>(&h.steps, &proof, &sums).map_err(|e| Fail::from(format!("honest proof refused: {e}")))?;
    let nv = proof.sc_aux_info.num_variables;
    let mut any = false;
    for _ in 0..4 {
        let mut q = proof.clone();
        let mut vs = sums.clone();
        let d = g.fr_nz();
        let mut ids: Vec<TrackerID> = q.comms.keys().copied().collect();
        ids.sort();
        let what = match g.below(9) {
            0 => { // a claimed sum the verifier takes from the proof
                let from: Vec<usize> = h.steps.iter().filter_map(|s| if let St::Sum(a, true) = s { Some(*a) } else { None }).collect();
                if from.is_empty() { continue; }
                let a = *g.pick(&from);
                *q.sumcheck_claims.get_mut(&p.polys[a].id).unwrap() += d;
                format!("claimed sum of node {a} off by {}", show(&d))
            }
            1 => { let i = g.size(0, vs.len() - 1); if !matches!(h.steps.iter().filter(|s| matches!(s, St::Sum(..))).nth(i), Some(St::Sum(_, false))) { continue; } vs[i] += d; format!("verifier expects another sum in claim {i}") }
            2 | 3 => match tamper_msgs(g, &q.sc_proof, nv) { Some((x, w)) => { q.sc_proof = x; w } None => continue },
            4 => { match g.below(4) { 0 => q.sc_aux_info.max_degree += 1, 1 => q.sc_aux_info.max_degree -= 1, 2 => q.sc_aux_info.num_variables += 1, _ => q.sc_aux_info.num_variables -= 1 } "auxiliary information altered".into() }
            5 => { let i = *g.pick(&ids); let j = *g.pick(&ids); let c = P::tamper_comm(&q.comms[&i], &q.comms[&j]); if c == q.comms[&i] { continue; } q.comms.insert(i, c); format!("commitment {} replaced", i.0) }
            6 => { let i = *g.pick(&ids); let j = *g.pick(&ids); let (a, b) = (q.comms[&i].clone(), q.comms[&j].clone()); if a == b { continue; } q.comms.insert(i, b); q.comms.insert(j, a); format!("commitments {} and {} swapped", i.0, j.0) }
            7 => { let (w, i) = (g.below(12), g.size(0, 7)); match P::tamper_batch(&q.pcs_proof[0], w, i, d) { Some((x, t)) => { q.pcs_proof[0] = x; t } None => continue } }
            _ => { let i = *g.pick(&ids); q.comms.remove(&i); format!("commitment {} left out", i.0) }
        };
        any = true;
        g.note(&what);
        if decide::<P>(&h.steps, &q, &vs).is_ok() { return Err(format!("accepted with: {what}").into()); }
    }
    Ok(any)
}
/// sums of uncommitted polynomials changed against each other, with the combination
/// coefficients read off other runs of the prover
fn cancelling(g: &mut Gen) -> R {
    let nv = g.size(1, 3);
    let n = 1usize << nv;
    let k = g.size(2, 4);
    let c = g.size(1, 2);
    let mut h: Vec<St> = (0..c).map(|_| St::Commit((0..n).map(|_| g.fr_random() + Fr::one()).collect())).collect();
    for _ in 0..k { h.push(St::Track(g.fr_vec(n))); }
    for i in 0..k { h.push(St::Sum(c + i, true)); }
    if g.bool() { h.push(St::Zero(0)); let z = St::Sub(0, 0); let at = h.len() - 1; h.insert(at - k, z); let l = h.len() - 1; h[l] = St::Zero(c + k); }
    let show_h: Vec<String> = h.iter().map(|s| s.show()).collect();
    g.note(show_h.join("; "));
    let run = |h: &[St]| -> Result<(PRun<MockPcs>, CompiledZKSQLProof<E, MockPcs>), Fail> { let mut p = prover::<MockPcs>(h).map_err(err)?; let x = p.pt.compile_proof().map_err(err)?; Ok((p, x)) };
    let (p, proof) = run(&h)?;
    let sums = vec![Fr::zero(); k];
    decide::<MockPcs>(&h, &proof, &sums).map_err(|e| Fail::from(format!("honest proof refused: {e}")))?;
    let i = g.size(0, k - 1);
    let j = (i + 1 + g.size(0, k - 2)) % k;
    let coef = |l: usize| -> Result<Fr, Fail> {
        let mut o = h.clone();
        for m in 0..k { if let St::Track(t) = &mut o[c + m] { for (x, v) in t.iter_mut().enumerate() { *v = fr((m == l && x == 0) as i64); } } }
        let (_, q) = run(&o)?;
        let m = q.sc_proof.proofs[0].verif_evaluations();
        Ok(m[0] + m[1])
    };
    let (ci, cj) = (coef(i)?, coef(j)?);
    let d = g.fr_nz();
    let mut q = proof.clone();
    *q.sumcheck_claims.get_mut(&p.polys[c + i].id).unwrap() += cj * d;
    *q.sumcheck_claims.get_mut(&p.polys[c + j].id).unwrap() -= ci * d;
    if q.sumcheck_claims == proof.sumcheck_claims { return Ok(false); }
    if decide::<MockPcs>(&h, &q, &sums).is_ok() { return Err(format!("claimed sums {i} and {j} changed against each other are accepted").into()); }
    Ok(true)
}
fn other_history(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 20);
    with_scheme!(sc, other_on, g)
}
fn other_on<P: TestPcs>(g: &mut Gen) -> R {
    let h = rich_history(g, 4);
    let mut p = prover::<P>(&h.steps).map_err(err)?;
    let r = reference(&h.steps, &p.chals);
    let proof = p.pt.compile_proof().map_err(err)?;
    let mut w = h.steps.clone();
    let own: Vec<St> = w.iter().map(|s| match s { St::Sum(a, _) => St::Sum(*a, false), s => s.clone() }).collect();
    let d = g.fr_nz();
    let is_claim = |s: &St| matches!(s, St::Sum(..) | St::Zero(_));
    let what = match g.below(6) {
        0 => { let i = g.size(0, w.len()); w.insert(i, St::Append(d)); "an additional message" }
        1 => { let first = w.iter().position(|s| matches!(s, St::Commit(_))).unwrap() + 1; let i = g.size(first, w.len()); w.insert(i, St::Chal); "an additional challenge" }
        2 => { let c: Vec<usize> = (0..w.len()).filter(|i| is_claim(&w[*i]) || matches!(w[*i], St::Append(_))).collect(); let i = *g.pick(&c); w.remove(i); "a step left out" }
        3 => { let a = g.size(0, r.nodes.len() - 1); let i = w.len(); w.insert(i, if r.zero(a) { St::Zero(a) } else { St::Sum(a, false) }); "an additional claim" }
        4 => { let c: Vec<usize> = (0..w.len()).filter(|i| matches!(w[*i], St::Append(_))).collect(); if c.is_empty() { return Ok(false); } let i = *g.pick(&c); if let St::Append(x) = &mut w[i] { *x += d; } "another message" }
        _ => { let c: Vec<usize> = (0..w.len()).filter(|i| matches!(w[*i], St::AddS(..) | St::MulS(..) | St::Front(..) | St::Back(..) | St::Add(..))).collect(); if c.is_empty() { return Ok(false); } let i = *g.pick(&c); let a = g.size(0, 0); let b = g.size(0, 0); w.insert(i, St::Add(a, b)); "an additional operation before others" }
    };
    g.note(format!("{}; verifier: {what}", h.show()));
    // an additional operation shifts identifiers: only a later commitment notices
    if what == "an additional operation before others" {
        let pos = (0..w.len()).find(|i| matches!((w.get(*i), h.steps.get(*i)), (Some(St::Add(0, 0)), Some(s)) if !matches!(s, St::Add(0, 0)))).unwrap_or(w.len());
        if !w[pos..].iter().any(|s| matches!(s, St::Commit(_))) { return Ok(false); }
        // references after the insertion keep pointing at the same node positions as before
        let at = w[..pos].iter().filter(|s| s.node()).count();
        let f = |x: usize| if x >= at { x + 1 } else { x };
        for s in w[pos + 1..].iter_mut() {
            *s = match s.clone() { St::Add(a, b) => St::Add(f(a), f(b)), St::Sub(a, b) => St::Sub(f(a), f(b)), St::Mul(a, b) => St::Mul(f(a), f(b)), St::AddS(a, c) => St::AddS(f(a), c), St::MulS(a, c) => St::MulS(f(a), c), St::AddC(a) => St::AddC(f(a)), St::MulC(a) => St::MulC(f(a)), St::Front(a, k) => St::Front(f(a), k), St::Back(a, k) => St::Back(f(a), k), St::Sum(a, x) => St::Sum(f(a), x), St::Zero(a) => St::Zero(f(a)), s => s };
        }
    }
    let m = max_nv(&r);
    // the verifier's own constants are the true sums of the nodes it claims about
    let w: Vec<St> = w.iter().map(|s| match s { St::Sum(a, _) => St::Sum(*a, false), s => s.clone() }).collect();
    let rw = reference(&w, &vec![Fr::zero(); w.len()]);
    let _ = m;
    let orig = claim_sums(&own, &r);
    let mut sums = vec![];
    { // claims kept keep their sums; an added one gets the true sum
        let mut it = orig.iter();
        let removed_sum = if what == "a step left out" { let (a, b) = (claims(&h.steps).0, claims(&w).0); a != b } else { false };
        if removed_sum {
            let i = (0..w.len()).find(|i| format!("{:?}", own[*i]) != format!("{:?}", w[*i])).unwrap_or(w.len());
            let k = own[..i].iter().filter(|s| matches!(s, St::Sum(..))).count();
            sums = orig.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, x)| *x).collect();
        } else { for s in &w { if let St::Sum(a, _) = s { sums.push(it.next().copied().unwrap_or_else(|| r.sum(*a) * Fr::from(1u64 << (max_nv(&r) - r.nodes[*a].nv)))); } } }
    }
    let _ = rw;
    decide::<P>(&own, &proof, &orig).map_err(|e| Fail::from(format!("honest proof refused: {e}")))?;
    if decide::<P>(&w, &proof, &sums).is_ok() { return Err(format!("accepted by a verifier with {what}").into()); }
    Ok(true)
}
/// A prover that proves something else than the verifier's derived polynomials.
/// The weight of each vertex in the combined zero claim is read off proofs about an uncommitted helper column;
/// then a committed column is made nonzero at two vertices that cancel under these weights. Its commitment has to change them.
fn adaptive(g: &mut Gen) -> R {
    let nv = g.size(1, 3);
    let n = 1usize << nv;
    let k = g.size(1, 6);
    let p = g.size(0, k - 1);
    let mut h: Vec<St> = (0..k).map(|i| St::Commit(if i == p { vec![Fr::zero(); n] } else { (0..n).map(|_| g.fr_random() + Fr::one()).collect() })).collect();
    h.push(St::Track(vec![Fr::zero(); n]));
    // the claim: the column itself, or its product with another column
    let by = if k > 1 && g.bool() { Some((p + 1 + g.size(0, k - 2)) % k) } else { None };
    let mut at = p;
    if let Some(c) = by { h.push(St::Mul(p, c)); at = k + 1; }
    let (a, b) = (St::Zero(k), St::Zero(at));
    let first = g.bool();
    if first { h.push(a); h.push(b); } else { h.push(b); h.push(a); }
    let run = |h: &[St]| -> Result<CompiledZKSQLProof<E, MockPcs>, Fail> { let mut p = prover::<MockPcs>(h).map_err(err)?; p.pt.compile_proof().map_err(err) };
    let proof = run(&h)?;
    decide::<MockPcs>(&h, &proof, &[]).map_err(|e| Fail::from(format!("honest proof refused: {e}")))?;
    let weight = |x: usize| -> Result<Fr, Fail> {
        let mut o = h.clone();
        if let St::Track(t) = &mut o[k] { t[x] = Fr::one(); }
        let m = run(&o)?;
        let e = m.sc_proof.proofs[0].verif_evaluations();
        Ok(e[0] + e[1])
    };
    let (x, y) = (g.size(0, n - 1), g.size(0, n - 2));
    let y = if y >= x { y + 1 } else { y };
    // the build with debug assertions does not produce these proofs
    let (Ok(wx), Ok(wy)) = (weight(x), weight(y)) else { return Ok(false) };
    if wx.is_zero() || wy.is_zero() { return Ok(false); }
    let d = g.fr_nz();
    let scale = |i: usize| match by { Some(c) => match &h[c] { St::Commit(t) => t[i].inverse().unwrap_or(Fr::one()), _ => Fr::one() }, None => Fr::one() };
    let (vx, vy) = (wy * d * scale(x), -(wx * d * scale(y)));
    if let St::Commit(t) = &mut h[p] { t[x] = vx; t[y] = vy; }
    let show_h: Vec<String> = h.iter().map(|s| s.show()).collect();
    g.note(show_h.join("; "));
    let Ok(q) = run(&h) else { return Ok(true) };
    if decide::<MockPcs>(&h, &q, &[]).is_ok() { return Err(format!("column {p} is nonzero at {x} and {y}, and the claim that it vanishes is accepted").into()); }
    Ok(true)
}
fn substituted(g: &mut Gen) -> R {
    let nv = g.size(1, 3);
    let n = 1usize << nv;
    let (t, u): (Vec<Fr>, Vec<Fr>) = ((0..n).map(|_| g.fr_random() + Fr::one()).collect(), (0..n).map(|_| g.fr_random() + Fr::one()).collect());
    let base = vec![St::Commit(t.clone()), St::Commit(u.clone())];
    // the verifier claims about `w`, the prover proves the claim about `h`, with equal identifiers
    let (mut h, mut w) = (base.clone(), base);
    match g.below(3) {
        0 => { h.push(St::Sub(0, 0)); w.push(St::Add(0, 1)); h.push(St::Zero(2)); w.push(St::Zero(2)); }
        1 => { h.push(St::Sub(0, 0)); w.push(St::Mul(0, 1)); h.push(St::Sum(2, false)); w.push(St::Sum(2, true)); }
        _ => { let c = g.fr_nz(); h.push(St::MulS(0, Fr::zero())); w.push(St::MulS(0, c)); h.push(St::Zero(2)); w.push(St::Zero(2)); }
    }
    let show_w: Vec<String> = w.iter().map(|s| s.show()).collect();
    g.note(format!("verifier: {}", show_w.join("; ")));
    let mut p = prover::<MockPcs>(&h).map_err(err)?;
    let proof = p.pt.compile_proof().map_err(err)?;
    if decide::<MockPcs>(&w, &proof, &[Fr::zero()]).is_ok() {
        return Err(Fail { sig: Some("D2-evaluation-unchecked"), msg: "a false claim about a derived polynomial is accepted with a proof about another polynomial".into() });
    }
    Ok(true)
}

// ---------------------------------------------------------------- C26
/// One case at a time in each: a worker that waits would otherwise start another case in the middle of its own.
pub fn pools() -> &'static Vec<std::sync::Mutex<rayon::ThreadPool>> {
    static S: std::sync::OnceLock<Vec<std::sync::Mutex<rayon::ThreadPool>>> = std::sync::OnceLock::new();
    S.get_or_init(|| [1usize, 2, 3, 4, 5, 7, 8, 16].iter().map(|n| std::sync::Mutex::new(rayon::ThreadPoolBuilder::new().num_threads(*n).stack_size(16 << 20).build().unwrap())).collect())
}
type Fp<P> = (Vec<Fr>, Vec<(usize, Fr)>, Vec<(usize, Vec<u8>)>, zk_sql::subroutines::IOPProof<Fr>, Vec<<P as zk_sql::subroutines::PolynomialCommitmentScheme<E>>::BatchProof>, usize, bool);
fn fingerprint<P: TestPcs>(h: &[St]) -> Result<Fp<P>, String> {
    use ark_serialize::CanonicalSerialize;
    let r = guarded(|| -> Res<Fp<P>> {
        let mut p = prover::<P>(h)?;
        let proof = p.pt.compile_proof()?;
        let r = reference(h, &p.chals);
        let ok = decide::<P>(h, &proof, &claim_sums(h, &r)).is_ok();
        let mut cs: Vec<(usize, Fr)> = proof.sumcheck_claims.iter().map(|(k, v)| (k.0, *v)).collect();
        cs.sort();
        let mut cm: Vec<(usize, Vec<u8>)> = proof.comms.iter().map(|(k, v)| { let mut b = vec![]; v.serialize_compressed(&mut b).unwrap(); (k.0, b) }).collect();
        cm.sort();
        Ok((p.chals.clone(), cs, cm, proof.sc_proof, proof.pcs_proof, proof.sc_aux_info.max_degree, ok))
    });
    free_leftovers();
    match r { Ok(Ok(x)) => Ok(x), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(p) }
}
fn diff_fp<P: TestPcs>(a: &Fp<P>, b: &Fp<P>) -> Option<&'static str> {
    if a.0 != b.0 { return Some("challenges"); }
    if a.1 != b.1 { return Some("claimed sums"); }
    if a.2 != b.2 { return Some("commitments"); }
    if a.3 != b.3 { return Some("sumcheck proof"); }
    if a.4 != b.4 { return Some("opening proof"); }
    if a.5 != b.5 { return Some("degree"); }
    if a.6 != b.6 { return Some("verdict"); }
    None
}
fn repeat(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 8);
    with_scheme!(sc, repeat_on, g)
}
fn repeat_on<P: TestPcs>(g: &mut Gen) -> R where <P as zk_sql::subroutines::PolynomialCommitmentScheme<E>>::BatchProof: Send {
    let mut h = true_history(g, 5);
    if P::NAME == "ideal" && g.chance(1, 4) { // sizes at which work is split
        let nv = g.size(8, 11);
        use ark_ff::UniformRand;
        let mut r = g.rng();
        let a = h.push(St::Commit((0..1usize << nv).map(|_| Fr::rand(&mut r)).collect()));
        let b = h.push(St::Track((0..1usize << nv).map(|_| Fr::rand(&mut r)).collect()));
        let m = h.push(St::Mul(a, b));
        h.push(St::Sum(m, true));
        let z = h.push(St::Sub(m, m));
        h.push(St::Zero(z));
        g.tag("large");
    }
    g.note(h.show());
    let steps = h.steps.clone();
    let first = fingerprint::<P>(&steps)?;
    for i in 0..3 {
        let k = if i == 0 { 0 } else { g.size(1, pools().len() - 1) };
        let pool = pools()[k].lock().unwrap_or_else(|e| e.into_inner());
        let s2 = steps.clone();
        let x = pool.install(move || fingerprint::<P>(&s2))?;
        if let Some(w) = diff_fp::<P>(&first, &x) { return Err(format!("{w} differ on {} threads", pool.current_num_threads()).into()); }
    }
    let again = fingerprint::<P>(&steps)?;
    if let Some(w) = diff_fp::<P>(&first, &again) { return Err(format!("{w} differ between two runs").into()); }
    if !first.6 { return Err("the honest proof is refused".into()); }
    let (a, b) = claims(&steps);
    Ok(a + b > 0)
}
fn repeatable_large(g: &mut Gen) -> R { super::compose::repeatable(g) }
/// Trackers do not affect each other: two histories step by step in turn, and proofs from copies.
fn interleaved(g: &mut Gen) -> R {
    let (h1, h2) = (true_history(g, 4), true_history(g, 4));
    g.note(format!("{} | {}", h1.show(), h2.show()));
    let alone = [fingerprint::<MockPcs>(&h1.steps)?, fingerprint::<MockPcs>(&h2.steps)?];
    let mut runs = [new_prover::<MockPcs>(), new_prover::<MockPcs>()];
    let hs = [&h1.steps, &h2.steps];
    let mut at = [0usize, 0];
    while at[0] < hs[0].len() || at[1] < hs[1].len() {
        let k = if at[0] >= hs[0].len() { 1 } else if at[1] >= hs[1].len() { 0 } else { g.below(2) as usize };
        prover_step(&mut runs[k], &hs[k][at[k]]).map_err(err)?;
        at[k] += 1;
    }
    let copy = [runs[0].pt.deep_copy(), runs[1].pt.deep_copy()];
    // a copy is worked on before the originals compile
    if g.bool() {
        let k = g.below(2) as usize;
        let mut c = runs[k].pt.deep_copy();
        let x = g.fr_random() + fr(3);
        let q = c.track_and_commit_poly(dmle(&[x, x + x])).map_err(err)?;
        let z = q.mul_poly(&q);
        c.add_sumcheck_claim(q.id, x);
        c.add_zerocheck_claim(z.id);
        let _ = c.append_serializable_element(b"zkv", &x);
        let _ = c.get_and_append_challenge(b"zkv");
        if g.bool() { let _ = guarded(|| c.compile_proof().map(|_| ())); }
        g.tag("copy-worked-on");
    }
    let mut vr = vec![];
    for k in 0..2 {
        let proof = runs[k].pt.compile_proof().map_err(err)?;
        let from_copy = copy[k].clone().compile_proof().map_err(err)?;
        if proof.sc_proof != alone[k].3 || proof.pcs_proof != alone[k].4 || runs[k].chals != alone[k].0 { return Err(format!("history {k}: proof depends on another tracker").into()); }
        if from_copy.sc_proof != proof.sc_proof || from_copy.comms != proof.comms || from_copy.sumcheck_claims != proof.sumcheck_claims || from_copy.pcs_proof != proof.pcs_proof { return Err("a deep copy compiles another proof".into()); }
        let r = reference(hs[k], &runs[k].chals);
        vr.push(new_verifier::<MockPcs>(proof, &claim_sums(hs[k], &r)));
    }
    let mut at = [0usize, 0];
    while at[0] < hs[0].len() || at[1] < hs[1].len() {
        let k = if at[0] >= hs[0].len() { 1 } else if at[1] >= hs[1].len() { 0 } else { g.below(2) as usize };
        verifier_step(&mut vr[k], &hs[k][at[k]]).map_err(err)?;
        at[k] += 1;
    }
    let order = if g.bool() { [0, 1] } else { [1, 0] };
    for k in order { vr[k].vt.verify_claims().map_err(|e| Fail::from(format!("history {k} refused next to another verifier: {e:?}")))?; }
    Ok(claims(&h1.steps) != (0, 0) && claims(&h2.steps) != (0, 0))
}
/// A deep copy of a verifier is worked on; the original must not notice.
fn verifier_copy(g: &mut Gen) -> R {
    let mut h = Hist::new(Opt { max_steps: 8, max_nv: 4, grow_virtual: false, reads: false, max_deg: 4, commit_first: true, max_terms: 24, max_base: 4 });
    let n = g.size(1, g.lor(8, 40));
    for _ in 0..n { h.step(g); }
    let cut = g.size(1, h.steps.len());
    g.note(format!("{}; copy after {cut} steps", h.show()));
    let p = prover::<MockPcs>(&h.steps).map_err(err)?;
    let mut proof = CompiledZKSQLProof::default();
    proof.comms = p.pt.clone_underlying_tracker().materialized_comms;
    let mut v = new_verifier::<MockPcs>(proof, &[]);
    for s in &h.steps[..cut] { verifier_step(&mut v, s).map_err(err)?; }
    let mut copy = v.vt.deep_copy();
    if copy.get_next_id() != v.vt.get_next_id() { return Err("a copy continues with another identifier".into()); }
    // the original continues, then the copy does something else under the same identifiers
    for s in &h.steps[cut..] { verifier_step(&mut v, s).map_err(err)?; }
    let c0 = v.vt.clone_underlying_tracker();
    let x = g.fr_random() + fr(1000);
    let extra = g.size(1, 6);
    for i in 0..extra { let y = x + fr(i as i64); copy.track_virtual_comm(Box::new(move |_: &[Fr]| Ok(y))); }
    let _ = copy.append_serializable_element(b"zkv", &x);
    copy.add_zerocheck_claim(TrackerID(0));
    let c1 = v.vt.clone_underlying_tracker();
    if c0.id_counter != c1.id_counter || c0.zero_check_claims != c1.zero_check_claims { return Err("working on a copy changes the original's counters or claims".into()); }
    let (mut t0, mut t1) = (c0.transcript.clone(), c1.transcript.clone());
    if t0.get_and_append_challenge(b"zkv end").ok() != t1.get_and_append_challenge(b"zkv end").ok() { return Err("working on a copy changes the original's transcript".into()); }
    let r = reference(&h.steps, &p.chals);
    let nodes_at_cut = h.steps[..cut].iter().filter(|s| s.node()).count();
    for i in 0..r.nodes.len() {
        let z: Vec<Fr> = (0..r.nodes[i].nv).map(|_| g.fr_random() + fr(2)).collect();
        fill_queries(&p.pt, &v.vt, &z);
        let got = v.comms[i].eval_virtual_comm(&z).map_err(err)?;
        if got != r.at(i, &z) {
            let msg = format!("node {i} of the original evaluates to {} after {extra} commitments were tracked in a deep copy", show(&got));
            // nodes that existed when the copy was made are never shared state that may change
            return if i < nodes_at_cut { Err(msg.into()) } else { Err(Fail { sig: Some("D7-verifier-copy-shares-commitments"), msg }) };
        }
    }
    Ok(true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C09", rule: "1-14 operations over polynomials of 1-6 variables, with reads and deep copies in between; non-trivial: a derived polynomial with several terms or of degree above 1",
            families: vec![fam("algebra", 40000, 1500000, algebra).dbg(5), fam("algebra-long", 1500, 60000, crate::long!(algebra)).dbg(5), fam("algebra-large", 800, 40000, crate::large!(algebra)).dbg(5)], assumptions: vec!["a polynomial grown from one of degree 2 or more is compared on the hypercube only, where its definition is unambiguous"] },
        Prop { id: "C10", rule: "1-14 operations, claims and challenges done by both sides; non-trivial: a derived commitment with several terms or of degree above 1",
            families: vec![fam("mirror", 40000, 1500000, mirror).dbg(5), fam("mirror-long", 250, 20000, crate::long!(mirror)).dbg(5), fam("mirror-large", 600, 30000, crate::large!(mirror)).dbg(5), fam("grown", 10000, 300000, mirror_grown).dbg(5)], assumptions: vec![] },
        Prop { id: "C11", rule: "histories of up to 10 operations over 1-5 variables with 0-8 true sum and zero claims, on the ideal scheme and on KZG; non-trivial: at least one claim",
            families: vec![fam("complete", 15000, 500000, complete).dbg(5), fam("complete-long", 1200, 50000, crate::long!(complete)).dbg(5), fam("complete-large", 600, 30000, crate::large!(complete)).dbg(5)], assumptions: vec!["every history commits to at least one polynomial"] },
        Prop { id: "C12", rule: "histories with a false claim, with one part of the compiled proof altered, verified under another history, with sums changed against each other, or with a substituted derived polynomial; non-trivial: something is false or altered",
            families: vec![fam("false-claims", 10000, 300000, false_claims).dbg(5), fam("tampered", 10000, 300000, tampered).dbg(5), fam("other-history", 10000, 300000, other_history).dbg(5), fam("false-claims-long", 500, 20000, crate::long!(false_claims)).dbg(5), fam("false-claims-large", 300, 15000, crate::large!(false_claims)).dbg(5), fam("tampered-long", 400, 20000, crate::long!(tampered)).dbg(5), fam("tampered-large", 200, 10000, crate::large!(tampered)).dbg(5), fam("other-history-long", 400, 20000, crate::long!(other_history)).dbg(5), fam("cancelling", 3000, 80000, cancelling).dbg(5), fam("adaptive", 1500, 40000, adaptive).dbg(5), fam("substituted", 1000, 20000, substituted).dbg(5)],
            assumptions: vec!["the entries of the proof's query map are not evidence the verifier uses, and are left alone", "a panic of the verifier counts as refusing"] },
        Prop { id: "C26", rule: "histories with claims run repeatedly, and sequences of 1-3 operators, run repeatedly, on 1-16 threads, in turn with another history, and next to copies that are worked on; non-trivial: at least one claim (operators: a compiled proof)",
            families: vec![fam("repeat", 3000, 100000, repeat).dbg(5), fam("repeat-long", 200, 8000, crate::long!(repeat)).dbg(5), fam("operators", 1500, 40000, super::compose::repeatable).dbg(5), fam("operators-large", 24, 600, crate::large!(repeatable_large)), fam("interleaved", 6000, 200000, interleaved).dbg(5), fam("verifier-copy", 6000, 200000, verifier_copy).dbg(5)],
            assumptions: vec!["schedules are those the thread pool produces with 1 to 16 workers under load; they are not enumerated"] },
    ]
}
