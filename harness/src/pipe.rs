//! Drives an operator or a claim set through the whole pipeline:
//! commit -> prove -> compile -> transfer -> verify -> verify_claims.
use crate::gen::Gen;
use crate::pcs::*;
use crate::runner::guarded;
use ark_bls12_381::Fr;
use ark_ff::Zero;
use zk_sql::tracker::prelude::*;
pub use zk_sql::tracker::prelude::PolyIOPErrors;

pub type PT<P> = ProverTrackerRef<E, P>;
pub type VT<P> = VerifierTrackerRef<E, P>;
pub type TP<P> = TrackedPoly<E, P>;
pub type TC<P> = TrackedComm<E, P>;
pub type Res<T> = Result<T, PolyIOPErrors>;

pub fn log2(n: usize) -> usize { assert!(n.is_power_of_two()); n.trailing_zeros() as usize }
pub fn dmle(v: &[Fr]) -> Dmle { Dmle::from_evaluations_slice(log2(v.len()), v) }
pub fn frs(v: &[i64]) -> Vec<Fr> { v.iter().map(|x| fr(*x)).collect() }
pub fn fr(x: i64) -> Fr { if x < 0 { -Fr::from((-x) as u64) } else { Fr::from(x as u64) } }
/// short rendering: small values as integers
pub fn show(x: &Fr) -> String {
    use ark_ff::PrimeField;
    let b = x.into_bigint().0;
    if b[1] == 0 && b[2] == 0 && b[3] == 0 && b[0] < 1 << 40 { return format!("{}", b[0]); }
    let n = (-*x).into_bigint().0;
    if n[1] == 0 && n[2] == 0 && n[3] == 0 && n[0] < 1 << 40 { return format!("-{}", n[0]); }
    format!("#{:x}", b[0] & 0xffff)
}
pub fn shows(v: &[Fr]) -> String { format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(",")) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict { Accept, RejectByProver(String), RejectByVerifier(String) }
impl Verdict { pub fn accepted(&self) -> bool { matches!(self, Verdict::Accept) } }

/// A step of the verifier disagrees with the prover although both ran the same
/// operator: identifiers, claims, challenges, or values of claimed polynomials.
pub struct Outcome { pub verdict: Verdict, pub mirror: Option<String> }

pub fn vcols<P: TestPcs>(vt: &mut VT<P>, ids: &[TrackerID]) -> Vec<TC<P>> { ids.iter().map(|i| vt.transfer_prover_comm(*i)).collect() }

thread_local! { static LEFTOVERS: std::cell::RefCell<Vec<Box<dyn FnOnce()>>> = std::cell::RefCell::new(vec![]); }
/// A verifier tracker whose evaluation closures are freed after the case (they hold references
/// to the map that holds them, so they would never be).
pub fn new_vt<P: TestPcs>(vp: <P as zk_sql::subroutines::PolynomialCommitmentScheme<E>>::VerifierParam) -> VT<P> {
    let vt = VT::<P>::new_from_pcs_params(vp);
    let map = vt.clone_underlying_tracker().virtual_comms;
    LEFTOVERS.with(|l| l.borrow_mut().push(Box::new(move || { let old = map.try_borrow_mut().map(|mut m| std::mem::take(&mut *m)); drop(old); })));
    vt
}
pub fn free_leftovers() { let l = LEFTOVERS.with(|l| std::mem::take(&mut *l.borrow_mut())); for f in l { f(); } }

/// What a dishonest prover does to the columns an operator commits to internally.
#[derive(Clone)]
pub struct Forgery { pub edits: Vec<[u64; 5]>, pub d: Fr }
pub fn draw_forgery(g: &mut Gen) -> Forgery {
    let n = g.size(1, 3);
    Forgery { edits: (0..n).map(|_| [g.below(64), g.below(14), g.below(64), g.below(64), g.below(64)]).collect(), d: g.fr_nz() }
}
thread_local! { static FORGE: std::cell::RefCell<Option<Forgery>> = std::cell::RefCell::new(None); }
pub fn set_forgery(f: Option<Forgery>) { FORGE.with(|x| *x.borrow_mut() = f) }
/// The `k`-th internal column in a run whose honest columns so far are `now` and were `before` in an earlier run.
fn forge(f: &Forgery, k: usize, now: &[Vec<Fr>], before: &[Vec<Fr>]) -> Vec<Fr> {
    use ark_ff::{Field, One};
    let mut w = now[k].clone();
    let n = w.len();
    let same: Vec<usize> = (0..before.len()).filter(|o| before[*o].len() == n).collect();
    let col = |o: usize| if o < k { now[o].clone() } else { before[o].clone() };
    for e in &f.edits {
        let t = e[0] as usize % before.len();
        let mates: Vec<usize> = (0..before.len()).filter(|o| *o != t && before[*o].len() == before[t].len()).collect();
        let o = if mates.is_empty() { t } else { mates[e[2] as usize % mates.len()] };
        // the mate of an averaged or exchanged pair changes too
        let (hit, o) = if k == t { (true, o) } else if k == o && e[1] < 2 { (true, t) } else { (false, o) };
        if !hit || !same.contains(&o) { continue; }
        let (i, j) = (e[3] as usize % n, e[4] as usize % n);
        let other = col(o);
        match e[1] {
            0 => { let h = Fr::from(2u64).inverse().unwrap(); for x in 0..n { w[x] = (w[x] + other[x]) * h; } }
            1 => w = other,
            2 => w = vec![Fr::zero(); n],
            3 => w = vec![Fr::one(); n],
            4 => { w[i] += f.d; w[j] -= f.d; }
            5 => w[i] += f.d,
            6 => for x in w.iter_mut() { *x *= f.d; },
            7 => w.swap(i, j),
            8 => for x in 0..n { w[x] += other[x]; },
            9 => w[i] = w[j],
            10 => { let s: Fr = other.iter().sum::<Fr>() - w.iter().sum::<Fr>(); w[i] += s; }
            11 => { let (a, b) = (w[i] * f.d, w[j] * f.d); w[i] += a; w[j] -= b; }
            12 => if let Some(r) = (w[i] - w[j]).inverse() { // rescaled against each other to the sum of the other column
                let s = (other.iter().sum::<Fr>() - w.iter().sum::<Fr>()) * r;
                let (a, b) = (w[i] * s, w[j] * s);
                w[i] += a; w[j] -= b;
            },
            _ => w[i] = Fr::zero(),
        }
    }
    w
}
/// Runs an operator on committed columns. Under a forgery it runs twice: once to learn the internal
/// columns, once with them changed; the second verdict counts.
pub fn run_op<P: TestPcs>(
    cols: &[Vec<Fr>],
    mirror_seed: u64,
    mut prove: impl FnMut(&mut PT<P>, &[TP<P>]) -> Res<()>,
    mut verify: impl FnMut(&mut VT<P>, &[TC<P>]) -> Res<()>,
) -> Outcome {
    if let Some(o) = crate::props::compose::step::<P>(cols, &mut prove, &mut verify) { return o; }
    let Some(f) = FORGE.with(|x| x.borrow().clone()) else { return run_once(cols, mirror_seed, &mut prove, &mut verify) };
    let (o, seen) = crate::props::common::watch(cols.len(), || run_once(cols, mirror_seed, &mut prove, &mut verify));
    if seen.is_empty() { return o; }
    let mut now: Vec<Vec<Fr>> = vec![];
    crate::props::common::dishonest(cols.len(), move |k, w| { now.push(w.clone()); if k < seen.len() && seen[k].len() == w.len() { forge(&f, k, &now, &seen) } else { w } },
        || run_once(cols, mirror_seed, &mut prove, &mut verify))
}
fn run_once<P: TestPcs>(
    cols: &[Vec<Fr>],
    mirror_seed: u64,
    prove: &mut impl FnMut(&mut PT<P>, &[TP<P>]) -> Res<()>,
    verify: &mut impl FnMut(&mut VT<P>, &[TC<P>]) -> Res<()>,
) -> Outcome {
    let (pp, vp) = P::params();
    let mut mirror = None;
    let proved = guarded(|| -> Res<_> {
        let mut pt = PT::<P>::new_from_pcs_params(pp);
        let mut polys = vec![];
        for c in cols {
            polys.push(pt.track_and_commit_poly(dmle(c)).map_err(PolyIOPErrors::from)?);
        }
        prove(&mut pt, &polys)?;
        let snap = pt.deep_copy();
        let proof = pt.compile_proof()?;
        Ok((polys.iter().map(|p| p.id).collect::<Vec<_>>(), snap, proof))
    });
    let (ids, snap, proof) = match proved {
        Err(p) => return Outcome { verdict: Verdict::RejectByProver(p), mirror },
        Ok(Err(e)) => return Outcome { verdict: Verdict::RejectByProver(format!("{e:?}")), mirror },
        Ok(Ok(x)) => x,
    };
    let r = guarded(|| -> Result<(), String> {
        let mut vt = new_vt::<P>(vp);
        vt.set_compiled_proof(proof);
        let comms = vcols(&mut vt, &ids);
        if let Err(e) = verify(&mut vt, &comms) { return Err(format!("operator: {e:?}")); }
        // the mirror comparison must not disturb the verdict
        mirror = guarded(|| compare_mirror(&snap, &vt, mirror_seed)).unwrap_or_else(|p| Some(format!("comparison panicked: {p}")));
        vt.verify_claims().map_err(|e| format!("{e:?}"))
    });
    let verdict = match r {
        Ok(Ok(())) => Verdict::Accept,
        Ok(Err(e)) => Verdict::RejectByVerifier(e),
        Err(p) => Verdict::RejectByVerifier(p),
    };
    Outcome { verdict, mirror }
}

fn rand_point(seed: u64, n: usize) -> Vec<Fr> {
    use ark_ff::UniformRand;
    use rand_chacha::rand_core::SeedableRng;
    let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(seed ^ 0xA5A5);
    (0..n).map(|_| Fr::rand(&mut r)).collect()
}

/// Fill the verifier's known evaluations of every committed polynomial at every
/// window of `pt` that fits its number of variables.
pub fn fill_queries<P: TestPcs>(pt: &PT<P>, vt: &VT<P>, point: &[Fr]) {
    let p = pt.clone_underlying_tracker();
    let v = vt.clone_underlying_tracker();
    let mut q = v.query_map.borrow_mut();
    for id in v.materialized_comms.keys() {
        if let Some(poly) = p.materialized_polys.get(id) {
            let k = poly.num_vars;
            if k > point.len() { continue; }
            for w in point.windows(k.max(1)) {
                let w = &w[..k];
                use ark_poly::MultilinearExtension;
                q.insert((*id, w.to_vec()), poly.evaluate(w).unwrap());
            }
        }
    }
}

pub fn compare_mirror<P: TestPcs>(snap: &PT<P>, vt: &VT<P>, seed: u64) -> Option<String> {
    let mut p = snap.clone_underlying_tracker();
    let mut v = vt.clone_underlying_tracker();
    if p.id_counter != v.id_counter { return Some(format!("identifier counters differ: prover {} verifier {}", p.id_counter, v.id_counter)); }
    let ps: Vec<usize> = p.sum_check_claims.iter().map(|c| c.label.0).collect();
    let vs: Vec<usize> = v.sum_check_claims.iter().map(|c| c.label.0).collect();
    if ps != vs { return Some(format!("sum claims differ: prover {ps:?} verifier {vs:?}")); }
    let pz: Vec<usize> = p.zero_check_claims.iter().map(|c| c.label.0).collect();
    let vz: Vec<usize> = v.zero_check_claims.iter().map(|c| c.label.0).collect();
    if pz != vz { return Some(format!("zero claims differ: prover {pz:?} verifier {vz:?}")); }
    let a = p.transcript.get_and_append_challenge(b"verif compare");
    let b = v.transcript.get_and_append_challenge(b"verif compare");
    match (&a, &b) {
        (Ok(x), Ok(y)) if x == y => {}
        (Err(_), Err(_)) => {}
        _ => return Some("transcripts out of step".into()),
    }
    let mut labels: Vec<TrackerID> = p.sum_check_claims.iter().map(|c| c.label).chain(p.zero_check_claims.iter().map(|c| c.label)).collect();
    labels.sort();
    labels.dedup();
    for l in labels {
        let nv = p.get_poly_nv(l);
        // arbitrary point, then one hypercube vertex
        let point = rand_point(seed ^ l.0 as u64, nv);
        fill_queries(snap, vt, &point);
        let want = p.evaluate(l, &point).unwrap();
        let got = v.eval_virtual_comm(l, &point).map_err(|e| format!("{e:?}"));
        if got.as_ref() != Ok(&want) { return Some(format!("claimed polynomial {} at a random point: prover {} verifier {:?}", l.0, show(&want), got.map(|x| show(&x)))); }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scheme { Ideal, Kzg }
/// mostly the ideal scheme
pub fn pick_scheme(g: &mut Gen, kzg_in: u64) -> Scheme {
    if let Some(s) = crate::props::compose::scheme() { return s; }
    if !g.large && g.chance(1, kzg_in) { g.tag("kzg"); Scheme::Kzg } else { Scheme::Ideal }
}
#[macro_export]
macro_rules! with_scheme {
    ($s:expr, $f:ident, $($a:expr),*) => { match $s { $crate::pipe::Scheme::Ideal => $f::<$crate::pcs::MockPcs>($($a),*), $crate::pipe::Scheme::Kzg => $f::<$crate::pcs::Kzg>($($a),*) } };
}

/// Decide "accept iff `want`", plus the mirror condition for every run that got that far.
pub fn expect(g: &mut Gen, o: &Outcome, want: bool, what: &str) -> Result<(), crate::runner::Fail> {
    if crate::props::compose::scheme().is_some() { return Err(crate::runner::Fail { sig: Some(if want { "STATEMENT-TRUE" } else { "STATEMENT-FALSE" }), msg: what.into() }); }
    match &o.verdict {
        Verdict::Accept => g.tag("accepted"),
        Verdict::RejectByProver(_) => g.tag("rejected-by-prover"),
        Verdict::RejectByVerifier(_) => g.tag("rejected-by-verifier"),
    }
    if FORGE.with(|x| x.borrow().is_some()) { // only a false statement must not pass
        let msg = if want || !o.verdict.accepted() { String::new() } else { format!("{what}: a false statement is accepted from a prover that forges its internal columns") };
        return Err(crate::runner::Fail { sig: Some(if msg.is_empty() { if want { "FORGED-TRUE" } else { "FORGED-FALSE" } } else { "" }), msg });
    }
    if let Some(m) = &o.mirror { return Err(format!("{what}: verifier does not mirror the prover: {m}").into()); }
    if o.verdict.accepted() != want {
        return Err(format!("{what}: statement is {want} but verdict is {:?}", o.verdict).into());
    }
    Ok(())
}
pub fn is_zero(x: &Fr) -> bool { x.is_zero() }
