//! C28: verifiers are total: whatever the shape of a proof, they answer.
use super::hist::*;
use super::kzg;
use super::sumcheck::*;
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use crate::with_scheme;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::AffineRepr;
use std::time::Duration;
use zk_sql::arithmetic::VPAuxInfo;
use zk_sql::subroutines::poly_iop::prelude::*;
use zk_sql::subroutines::{BatchProof, IOPProof, PolyIOP, PolynomialCommitmentScheme};
use zk_sql::tracker::prelude::*;

type Msg = zk_sql::subroutines::poly_iop::structs::IOPProverMessage<Fr>;
const LIMIT: u64 = 30;

/// Runs a verifier on its own thread: its answer, or why there is none.
fn answer<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let r = guarded(f); free_leftovers(); let _ = tx.send(r); }).unwrap();
    match rx.recv_timeout(Duration::from_secs(LIMIT)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(p)) => Err(format!("{what}: {p}").into()),
        Err(_) => Err(format!("{what}: no answer within {LIMIT} s").into()),
    }
}

/// another length for a list: shorter, empty, or longer
fn resize<X: Clone>(g: &mut Gen, v: &mut Vec<X>, mut fresh: impl FnMut(&mut Gen) -> X) -> String {
    let n = v.len();
    match g.below(6) {
        0 => v.clear(),
        1 => { v.pop(); }
        2 => { if n > 0 { v.remove(0); } }
        3 => { let k = g.size(0, n); v.truncate(k); }
        4 => { let x = fresh(g); v.push(x); }
        _ => { let k = g.size(1, 40); for _ in 0..k { let x = fresh(g); v.push(x); } }
    }
    format!("{n} -> {}", v.len())
}
/// one change of the shape of a sumcheck proof
fn misshape_iop(g: &mut Gen, p: &mut IOPProof<Fr>) -> String {
    match g.below(4) {
        0 => format!("rounds {}", resize(g, &mut p.proofs, |g| { let k = g.size(0, 4); let e = g.fr_vec(k); Msg::verif_new(e) })),
        1 => format!("point {}", resize(g, &mut p.point, |g| g.fr())),
        2 if !p.proofs.is_empty() => { let i = g.size(0, p.proofs.len() - 1); format!("evaluations of round {i} {}", resize(g, p.proofs[i].verif_evaluations_mut(), |g| g.fr())) }
        _ => { // every round
            let k = *g.pick(&[0usize, 1, 2, 3, 5, 22, 40, 70]);
            for m in p.proofs.iter_mut() { let e = g.fr_vec(k); *m = Msg::verif_new(e); }
            format!("{k} evaluations in every round")
        }
    }
}
/// auxiliary information that may not fit, up to sizes nothing can be allocated for
fn misshape_aux(g: &mut Gen, a: &mut VPAuxInfo<Fr>, extreme: bool) -> String {
    let odd = |g: &mut Gen, v: usize| match g.below(if extreme { 7 } else { 4 }) {
        0 => v.saturating_add(g.size(1, 3)), 1 => v.saturating_sub(g.size(1, 3)), 2 => 0, 3 => 1,
        4 => usize::MAX, 5 => usize::MAX - g.size(1, 3), _ => 1usize << g.size(60, 63),
    };
    if g.bool() { a.num_variables = odd(g, a.num_variables); } else { a.max_degree = odd(g, a.max_degree); }
    format!("{} variables, degree {}", a.num_variables, a.max_degree)
}

fn sumchecks(g: &mut Gen) -> R {
    let (pool, terms, v) = build(g);
    let zero = g.chance(1, 3);
    let t = history(g, true);
    let proof = if zero { zc_prove(&v, &mut t.clone())? } else { sc_prove(&v, &mut t.clone())? };
    let sum: Fr = pool.on_cube(&terms).iter().sum();
    let (mut any, mut log) = (false, vec![]);
    for _ in 0..4 {
        let (mut q, mut aux, mut s) = (proof.clone(), v.aux_info.clone(), sum);
        let mut whats = vec![];
        for _ in 0..g.size(1, 3) {
            let w = if g.chance(1, 3) { misshape_aux(g, &mut aux, !zero) } else { misshape_iop(g, &mut q) };
            whats.push(w);
        }
        // the degree that fits the messages, so that their length is not what is refused
        if g.bool() { if let Some(m) = q.proofs.first() { aux.max_degree = m.verif_evaluations().len().saturating_sub(1 + zero as usize); } }
        if g.bool() { if let Some([a, b, ..]) = q.proofs.first().map(|m| &m.verif_evaluations()[..]) { s = *a + b; } }
        any |= q != proof || aux.max_degree != v.aux_info.max_degree || aux.num_variables != v.aux_info.num_variables;
        let what = format!("{} verifier: {}", if zero { "zerocheck" } else { "sumcheck" }, whats.join(", "));
        g.note(&what);
        let mut t = t.clone();
        let r = answer(&what, move || if zero { <PolyIOP<Fr> as ZeroCheck<Fr>>::verify(&q, &aux, &mut t).is_ok() } else { <PolyIOP<Fr> as SumCheck<Fr>>::verify(s, &q, &aux, &mut t).is_ok() })?;
        g.tag(if r { "answered-yes" } else { "refused" });
        log.push(r);
    }
    let (mut t, aux) = (t, v.aux_info.clone());
    let honest = answer("honest proof", move || if zero { <PolyIOP<Fr> as ZeroCheck<Fr>>::verify(&proof, &aux, &mut t).is_ok() } else { <PolyIOP<Fr> as SumCheck<Fr>>::verify(sum, &proof, &aux, &mut t).is_ok() })?;
    if !zero && !honest { return Err("the honest proof is refused after malformed ones".into()); }
    Ok(any)
}

pub fn misshape_batch(g: &mut Gen, q: &mut BatchProof<E, Kzg>) -> String {
    match g.below(4) {
        0 => format!("values {}", resize(g, &mut q.f_i_eval_at_point_i, |g| g.fr())),
        1 => format!("quotients {}", resize(g, &mut q.verif_g_prime_proof_mut().proofs, |_| G1Affine::generator())),
        _ => format!("inner {}", misshape_iop(g, q.verif_sum_check_proof_mut())),
    }
}
fn openings(g: &mut Gen) -> R {
    let (pp, vp, b, t, p) = kzg::batch_case(g, 6)?;
    let nv = b.points[0].len();
    let single = g.chance(1, 3);
    let mut any = false;
    if single {
        let (w, y) = Kzg::open(pp, &b.polys[0], &b.points[0]).map_err(|e| format!("{e:?}"))?;
        for _ in 0..4 {
            let (mut q, mut z) = (w.clone(), b.points[0].clone());
            let mut whats = vec![];
            for _ in 0..g.size(1, 2) { let w = if g.bool() { format!("quotients {}", resize(g, &mut q.proofs, |_| G1Affine::generator())) } else { format!("point {}", resize(g, &mut z, |g| g.fr())) }; whats.push(w); }
            if g.chance(1, 3) { let k = z.len(); q.proofs.resize(k, G1Affine::zero()); }
            let changed = q != w || z != b.points[0];
            any |= changed;
            let what = format!("opening verifier: {}", whats.join(", "));
            g.note(&what);
            let c = b.comms[0];
            let r = answer(&what, move || Kzg::verify(vp, &c, &z, &y, &q).unwrap_or(false))?;
            if !changed && !r { return Err("the honest opening is refused".into()); }
            g.tag(if r { "answered-yes" } else { "refused" });
        }
        return Ok(any);
    }
    for _ in 0..4 {
        let (mut q, mut comms, mut points) = (p.clone(), b.comms.clone(), b.points.clone());
        let mut whats = vec![];
        for _ in 0..g.size(1, 3) {
            let w = match g.below(7) {
                0 => format!("commitments {}", resize(g, &mut comms, |g| b.comms[g.size(0, b.comms.len() - 1)])),
                1 => format!("points {}", resize(g, &mut points, |g| g.fr_vec(nv))),
                2 if !points.is_empty() => { let i = g.size(0, points.len() - 1); format!("coordinates of point {i} {}", resize(g, &mut points[i], |g| g.fr())) }
                3 => { let k = g.size(0, 9); for z in points.iter_mut() { z.resize(k, Fr::from(3u64)); } if g.bool() { q.verif_sum_check_proof_mut().point.resize(k, Fr::from(2u64)); } format!("{k} coordinates in every point") }
                4 => misshape_batch(g, &mut q),
                5 => misshape_batch(g, &mut q),
                _ => { let k = g.size(0, 9); comms.resize(k, b.comms[0]); points.resize(k, b.points[0].clone()); if g.bool() { q.f_i_eval_at_point_i.resize(k, Fr::from(5u64)); } format!("batch of {k}") }
            };
            whats.push(w);
        }
        let changed = q != p || comms != b.comms || points != b.points;
        any |= changed;
        let what = format!("batch verifier: {}", whats.join(", "));
        g.note(&what);
        let mut t = t.clone();
        let r = answer(&what, move || Kzg::batch_verify(vp, &comms, &points, &q, &mut t).unwrap_or(false))?;
        if !changed && !r { return Err("the honest batch is refused".into()); }
        g.tag(if r { "answered-yes" } else { "refused" });
    }
    let mut t = t;
    if !answer("honest batch", move || Kzg::batch_verify(vp, &b.comms, &b.points, &p, &mut t).unwrap_or(false))? { return Err("the honest batch is refused after malformed ones".into()); }
    Ok(any)
}

fn compiled(g: &mut Gen) -> R { let sc = pick_scheme(g, 3); with_scheme!(sc, compiled_on, g) }
fn compiled_on<P: TestPcs>(g: &mut Gen) -> R
where <P as PolynomialCommitmentScheme<E>>::BatchProof: Send, <P as PolynomialCommitmentScheme<E>>::Commitment: Send {
    let h = super::trackers::rich_history(g, 4);
    g.note(h.show());
    let mut p = prover::<P>(&h.steps).map_err(|e| format!("{e:?}"))?;
    let r = reference(&h.steps, &p.chals);
    let proof = p.pt.compile_proof().map_err(|e| format!("{e:?}"))?;
    let sums = claim_sums(&h.steps, &r);
    let mut any = false;
    for _ in 0..5 {
        let mut q = proof.clone();
        let mut ids: Vec<TrackerID> = q.comms.keys().copied().collect();
        ids.sort();
        let mut whats = vec![];
        for _ in 0..g.size(1, 2) {
            let w = match g.below(10) {
                0 | 1 => misshape_iop(g, &mut q.sc_proof),
                2 | 3 => misshape_aux(g, &mut q.sc_aux_info, true),
                4 => { // rounds and variables that fit, in another number
                    let k = g.size(0, 12); let m = q.sc_proof.proofs[..].first().cloned().unwrap_or_else(|| Msg::verif_new(vec![])); q.sc_proof.proofs.resize(k, m); q.sc_aux_info.num_variables = k; if g.bool() { let d = q.sc_aux_info.max_degree.min(40); for m in q.sc_proof.proofs.iter_mut() { *m = Msg::verif_new(vec![Fr::from(0u64); d + 1]); } } format!("{k} rounds for {k} variables") }
                5 => { let j = TrackerID(*g.pick(&[usize::MAX, 1000, h.steps.len(), h.steps.len() + 1, h.steps.len() + 2])); let c = q.comms[&ids[0]].clone(); q.comms.insert(j, c); format!("a commitment under identifier {}", j.0) }
                6 => { let n = *g.pick(&[0usize, 0, 2]); let b = q.pcs_proof.first().cloned(); q.pcs_proof.clear(); if let Some(b) = b { q.pcs_proof.resize(n, b); } format!("{n} batch openings") }
                7 => { q.query_map.clear(); "no evaluations".into() }
                _ => match q.pcs_proof.first().and_then(|b| P::misshape(g, b)) { Some((b, w)) => { q.pcs_proof[0] = b; w } None => continue },
            };
            whats.push(w);
        }
        if whats.is_empty() { continue; }
        any = true;
        let what = format!("compiled proof: {}", whats.join(", "));
        g.note(&what);
        let (steps, sums) = (h.steps.clone(), sums.clone());
        let r = answer(&what, move || verifier(&steps, q, &sums).and_then(|r| r.vt.verify_claims()).is_ok())?;
        g.tag(if r { "answered-yes" } else { "refused" });
    }
    let (steps, q) = (h.steps.clone(), proof.clone());
    if !answer("honest proof", move || verifier(&steps, q, &sums).and_then(|r| r.vt.verify_claims()).is_ok())? { return Err("the honest proof is refused after malformed ones".into()); }
    Ok(any)
}
/// A part the verifier asks for by identifier is not there.
fn missing(g: &mut Gen) -> R {
    let h = super::trackers::rich_history(g, 3);
    g.note(h.show());
    let mut p = prover::<MockPcs>(&h.steps).map_err(|e| format!("{e:?}"))?;
    let proof = p.pt.compile_proof().map_err(|e| format!("{e:?}"))?;
    let mut q = proof.clone();
    let mut ids: Vec<TrackerID> = if g.bool() { q.comms.keys().copied().collect() } else { q.sumcheck_claims.keys().copied().collect() };
    ids.sort();
    let id = *g.pick(&ids);
    let comm = q.comms.remove(&id).is_some();
    let sum = q.sumcheck_claims.remove(&id).is_some();
    g.note(format!("without the commitment ({comm}) or claimed sum ({sum}) of {}", id.0));
    let mut vt = new_vt::<MockPcs>(MockPcs::params().1);
    vt.set_compiled_proof(q);
    let a = if comm { guarded(|| { vt.transfer_prover_comm(id); }) } else { guarded(|| { vt.get_prover_claimed_sum(id); }) };
    match a { Ok(()) => Ok(true), Err(p) => Err(Fail { sig: Some("D8-missing-part"), ..Fail::from(format!("a part that the proof does not have: {p}")) }) }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C28", rule: "honest proofs (sumcheck, zerocheck, openings, batches, compiled) with one to three changes of shape: rounds, evaluations, coordinates, quotients, commitments, points, values, openings or identifiers missing, surplus or of another number, auxiliary information up to the largest numbers; non-trivial: the shape changed",
        families: vec![fam("sumchecks", 6000, 200000, sumchecks).dbg(10), fam("openings", 3000, 100000, openings).dbg(10), fam("compiled", 3000, 100000, compiled).dbg(10), fam("missing", 60, 1000, missing)],
        assumptions: vec!["a verifier that has not answered after 30 s is taken to hang", "the caller's own arguments (claims, a zerocheck's auxiliary information) are of sensible size"] }]
}
