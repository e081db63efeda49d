//! C06, C07: the multilinear KZG scheme and batched openings.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::props::arith::*;
use crate::props::sumcheck::{history, tamper_msgs, T};
use crate::runner::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{Field, One, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use rand_chacha::rand_core::SeedableRng;
use std::sync::{Arc, OnceLock};
use zk_sql::subroutines::{BatchProof, Commitment, MultilinearKzgProof, MultilinearProverParam, MultilinearUniversalParams, MultilinearVerifierParam, PolynomialCommitmentScheme as P, StructuredReferenceString};

pub type Pp = MultilinearProverParam<E>;
pub type Vp = MultilinearVerifierParam<E>;
pub type C = Commitment<E>;
pub type Pr = MultilinearKzgProof<E>;
pub type Bp = BatchProof<E, Kzg>;

struct Setup { srs: MultilinearUniversalParams<E>, trims: Vec<(Pp, Vp)> }
/// parameter sets of sizes 1, 3 and 7 with every trimmed version (index = supported variables - 1)
fn setups() -> &'static Vec<Setup> {
    static S: OnceLock<Vec<Setup>> = OnceLock::new();
    S.get_or_init(|| [7usize, 3, 1, 11].iter().map(|n| {
        let mut r = rand_chacha::ChaCha20Rng::seed_from_u64(1000 + *n as u64);
        let srs = Kzg::gen_srs_for_testing(&mut r, *n).unwrap();
        let trims = (1..=*n).map(|k| Kzg::trim(&srs, None, Some(k)).unwrap()).collect();
        Setup { srs, trims }
    }).collect())
}
fn err(e: impl std::fmt::Debug) -> Fail { format!("{e:?}").into() }
fn setup(g: &mut Gen) -> &'static Setup { if g.large { return &setups()[3]; } &setups()[g.weighted(&[6, 2, 1])] }
fn table(g: &mut Gen, nv: usize) -> Vec<Fr> {
    let n = 1usize << nv;
    match g.weighted(&[6, 1, 1, 1]) {
        0 => g.fr_vec(n),
        1 => { let k = g.size(0, n - 1); let x = g.fr_nz(); (0..n).map(|i| if i == k { x } else { Fr::zero() }).collect() }
        2 => { let x = g.fr(); vec![x; n] }
        _ => { let k = g.size(0, nv - 1); let (a, b) = (g.fr(), g.fr()); (0..n).map(|i| if i >> k & 1 == 1 { b } else { a }).collect() }
    }
}
/// accepted or not; errors and panics count as refusing
fn ver(vp: &Vp, c: &C, z: &[Fr], y: &Fr, p: &Pr) -> bool { guarded(|| Kzg::verify(vp, c, z, y, p)).map_or(false, |r| r.unwrap_or(false)) }
fn gen_g1(g: &mut Gen) -> G1Affine { let k = g.fr_nz(); (G1Affine::generator() * k).into_affine() }
fn diff_idx(g: &mut Gen, n: usize, i: usize) -> usize { (i + 1 + g.size(0, n - 2)) % n }

fn opening(g: &mut Gen) -> R {
    let s = setup(g);
    let nv = if g.large { g.size(6, 11) } else { g.size(1, s.trims.len().min(5)) };
    let (pp, vp) = &s.trims[g.size(nv, s.trims.len()) - 1];
    let t = table(g, nv);
    let z = point(g, nv);
    g.note(format!("parameters for {} f={} z={}", pp.num_vars, shows(&t[..t.len().min(16)]), shows(&z)));
    let m = dmle(&t);
    let c = Kzg::commit(pp, &m).map_err(err)?;
    let (p, y) = Kzg::open(pp, &m, &z).map_err(err)?;
    let want = def_eval(&t, &z);
    if y != want { return Err(format!("opened value {} instead of {}", show(&y), show(&want)).into()); }
    if p.proofs.len() != nv { return Err("number of quotients".into()); }
    if !Kzg::verify(vp, &c, &z, &y, &p).map_err(err)? { return Err("the honest opening is refused".into()); }
    // parameters trimmed to different sizes are interchangeable
    let (pp2, vp2) = &s.trims[g.size(nv, s.trims.len()) - 1];
    if Kzg::commit(pp2, &m).map_err(err)? != c { return Err(format!("commitment depends on trimming ({} / {})", pp.num_vars, pp2.num_vars).into()); }
    if !Kzg::verify(vp2, &c, &z, &y, &p).map_err(err)? { return Err(format!("opening made with {} refused by parameters for {}", pp.num_vars, vp2.num_vars).into()); }
    // a different value
    let d = g.fr_nz();
    if ver(vp, &c, &z, &(y + d), &p) { return Err(format!("value off by {} accepted", show(&d)).into()); }
    // a different point at which the polynomial has another value
    let mut z2 = z.clone();
    match g.below(3) { 0 => { let i = g.size(0, nv - 1); z2[i] += d; } 1 => z2 = point(g, nv), _ => { let i = g.size(0, nv - 1); let j = g.size(0, nv - 1); z2.swap(i, j); } }
    if def_eval(&t, &z2) != y { g.tag("wrong-point"); if ver(vp, &c, &z2, &y, &p) { return Err(format!("accepted at point {}", shows(&z2)).into()); } }
    // points of another length
    let mut z3 = z.clone(); z3.push(g.fr());
    if ver(vp, &c, &z3, &y, &p) { return Err("accepted at a longer point".into()); }
    if nv > 1 { let cut = if g.bool() { &z[1..] } else { &z[..nv - 1] }; if ver(vp, &c, cut, &y, &p) { return Err("accepted at a shorter point".into()); } }
    // a commitment to another polynomial with another value there
    let mut t2 = t.clone();
    if g.bool() { let i = g.size(0, t.len() - 1); t2[i] += d; } else { t2 = table(g, nv); }
    let m2 = dmle(&t2);
    let c2 = Kzg::commit(pp, &m2).map_err(err)?;
    if (c2 == c) != (t2 == t) { return Err(format!("commitments of {} and {}: equal is {}", shows(&t), shows(&t2), c2 == c).into()); }
    if def_eval(&t2, &z) != y { g.tag("wrong-commitment"); if ver(vp, &c2, &z, &y, &p) { return Err("accepted under another commitment".into()); } }
    let c3 = Commitment((c.0 + gen_g1(g)).into_affine());
    if ver(vp, &c3, &z, &y, &p) { return Err("accepted under an altered commitment".into()); }
    // an altered proof
    let mut q = p.clone();
    let i = g.size(0, nv - 1);
    let what = match g.below(6) {
        0 => { q.proofs[i] = (q.proofs[i] + gen_g1(g)).into_affine(); "one quotient altered" }
        1 => { q.proofs[i] = gen_g1(g); "one quotient replaced" }
        2 => { q.proofs.remove(i); "one quotient dropped" }
        3 => { let x = if g.bool() { G1Affine::identity() } else { gen_g1(g) }; q.proofs.insert(i + 1, x); "one quotient added" }
        4 => { let j = g.size(0, nv - 1); q.proofs.swap(i, j); "quotients swapped" }
        _ => { q = Kzg::open(pp, &m2, &z).map_err(err)?.0; "proof of another polynomial" }
    };
    if q != p { g.tag("altered-proof"); if ver(vp, &c, &z, &y, &q) { return Err(format!("accepted with {what} ({} quotients for {nv} variables)", q.proofs.len()).into()); } }
    Ok(t.iter().any(|x| !x.is_zero()))
}
fn algebra(g: &mut Gen) -> R {
    let s = setup(g);
    let nv = g.size(g.or(1, 6) as usize, s.trims.len());
    let (pp, vp) = &s.trims[g.size(nv, s.trims.len()) - 1];
    let (a, b) = (table(g, nv), table(g, nv));
    let (x, y) = (g.fr(), g.fr());
    g.note(format!("parameters for {} a={} b={} {}a+{}b", pp.num_vars, shows(&a[..a.len().min(8)]), shows(&b[..b.len().min(8)]), show(&x), show(&y)));
    let com = |t: &[Fr]| Kzg::commit(pp, &dmle(t)).map_err(err);
    let (ca, cb) = (com(&a)?, com(&b)?);
    if com(&a)? != ca { return Err("commitment is not deterministic".into()); }
    if (ca == cb) != (a == b) { return Err("commitments are not injective".into()); }
    let l: Vec<Fr> = a.iter().zip(&b).map(|(u, v)| x * u + y * v).collect();
    if com(&l)?.0 != (ca.0 * x + cb.0 * y).into_affine() { return Err("commitment is not linear".into()); }
    // the definition, from the basis: commitment of a table = combination of the vertex commitments
    if nv <= 3 {
        let mut acc = G1Projective::zero();
        for (i, v) in a.iter().enumerate() { let mut e = vec![Fr::zero(); a.len()]; e[i] = Fr::one(); acc += com(&e)?.0 * v; }
        if ca.0 != acc.into_affine() { return Err("commitment is not the combination of vertex commitments".into()); }
    }
    // constant c commits to g^c
    let k = vec![x; 1 << nv];
    if com(&k)?.0 != (vp.g * x).into_affine() { return Err("commitment of a constant".into()); }
    // variables added in front
    if nv < pp.num_vars {
        let add = g.size(1, pp.num_vars - nv);
        let grown: Vec<Fr> = (0..1usize << (nv + add)).map(|i| a[i >> add]).collect();
        if com(&grown)? != ca { return Err(format!("{add} variables added in front change the commitment").into()); }
        let z = point(g, nv + add);
        let (p, v) = Kzg::open(pp, &dmle(&grown), &z).map_err(err)?;
        if v != def_eval(&a, &z[add..]) || !Kzg::verify(vp, &ca, &z, &v, &p).map_err(err)? { return Err("opening of the grown polynomial against the original commitment".into()); }
        g.tag("grown");
        // added at the back: same commitment only if constant in them
        let back: Vec<Fr> = (0..1usize << (nv + add)).map(|i| a[i & ((1 << nv) - 1)]).collect();
        if (com(&back)? == ca) != (back == grown) { return Err("variables added at the back".into()); }
    }
    Ok(a.iter().any(|x| !x.is_zero()))
}
fn e(a: &G1Affine, b: &<Bls12_381 as Pairing>::G2Affine) -> ark_ec::pairing::PairingOutput<Bls12_381> { Bls12_381::pairing(*a, *b) }
/// Structure of the parameters: every level is the previous one with a variable summed out, and
/// the entry for "1" carries the secret of that variable.
fn params(g: &mut Gen) -> R {
    let n = g.size(1, 6);
    let mut r = g.rng();
    let srs = Kzg::gen_srs_for_testing(&mut r, n).map_err(err)?;
    let k = g.size(1, n);
    let (pp, vp) = match g.below(3) {
        0 => Kzg::trim(&srs, None, Some(k)).map_err(err)?,
        1 => (srs.extract_prover_param(k), srs.extract_verifier_param(k)),
        _ => { let (a, b) = srs.trim(k).map_err(err)?; (a, b) }
    };
    g.note(format!("srs {n} trimmed to {k}"));
    if pp.num_vars != k || vp.num_vars != k || pp.powers_of_g.len() != k + 1 || vp.h_mask.len() != k || pp.g != vp.g || pp.h != vp.h { return Err("shape of the trimmed parameters".into()); }
    if pp.g.is_zero() || pp.h.is_zero() { return Err("degenerate generators".into()); }
    if vp.h_mask.iter().any(|h| h.is_zero() || *h == vp.h) || (0..k).any(|i| (0..i).any(|j| vp.h_mask[i] == vp.h_mask[j])) { return Err("degenerate or repeated secrets".into()); }
    for i in 0..k {
        let (l, up) = (&pp.powers_of_g[i].evals, &pp.powers_of_g[i + 1].evals);
        if l.len() != 1 << (k - i) || up.len() != 1 << (k - i - 1) { return Err(format!("level {i} has {} entries", l.len()).into()); }
        for b in 0..up.len() { if (l[2 * b] + l[2 * b + 1]).into_affine() != up[b] { return Err(format!("level {i}: entries {} and {} do not sum to level {} entry {b}", 2 * b, 2 * b + 1, i + 1).into()); } }
        let w: Vec<Fr> = (0..up.len()).map(|_| g.fr_random() + Fr::one()).collect();
        let odd: Vec<G1Affine> = (0..up.len()).map(|b| l[2 * b + 1]).collect();
        let x = G1Projective::msm_unchecked(&odd, &w).into_affine();
        let y = G1Projective::msm_unchecked(up, &w).into_affine();
        if e(&x, &vp.h) != e(&y, &vp.h_mask[i]) { return Err(format!("level {i} does not carry the secret of variable {i}").into()); }
    }
    if pp.powers_of_g[k].evals != vec![pp.g] { return Err("last level".into()); }
    // refused sizes
    if Kzg::gen_srs_for_testing(&mut r, 0).is_ok() { return Err("parameters for no variable".into()); }
    if guarded(|| Kzg::trim(&srs, None, Some(n + 1)).is_ok()) == Ok(true) { return Err("trimmed beyond the size".into()); }
    if guarded(|| Kzg::trim(&srs, None, None).is_ok()) == Ok(true) { return Err("trimmed to an unknown size".into()); }
    let big = dmle(&table(g, k + 1));
    if Kzg::commit(&pp, &big).is_ok() { return Err("an oversized polynomial is committed".into()); }
    let z = point(g, k + 1);
    if Kzg::open(&pp, &big, &z).is_ok() { return Err("an oversized polynomial is opened".into()); }
    let m = dmle(&table(g, k));
    if Kzg::open(&pp, &m, &z).is_ok() || Kzg::open(&pp, &m, &z[..k - 1]).is_ok() { return Err("opening at a point of the wrong length".into()); }
    let (p, y) = Kzg::open(&pp, &m, &z[..k]).map_err(err)?;
    if Kzg::verify(&vp, &Kzg::commit(&pp, &m).map_err(err)?, &z, &y, &p).is_ok() { return Err("a point longer than the parameters support is not an error".into()); }
    Ok(k > 1)
}
fn rt<S: CanonicalSerialize + CanonicalDeserialize>(what: &str, x: &S) -> Result<S, Fail> {
    let mut out = None;
    for comp in [true, false] {
        let mut b = vec![];
        if comp { x.serialize_compressed(&mut b) } else { x.serialize_uncompressed(&mut b) }.map_err(err)?;
        if b.len() != if comp { x.compressed_size() } else { x.uncompressed_size() } { return Err(format!("{what}: announced size is wrong").into()); }
        let y = if comp { S::deserialize_compressed(&b[..]) } else { S::deserialize_uncompressed(&b[..]) }.map_err(err)?;
        let mut b2 = vec![];
        if comp { y.serialize_compressed(&mut b2) } else { y.serialize_uncompressed(&mut b2) }.map_err(err)?;
        if b != b2 { return Err(format!("{what} does not survive serialization").into()); }
        let cut = &b[..b.len() - 1];
        if if comp { S::deserialize_compressed(cut).is_ok() } else { S::deserialize_uncompressed(cut).is_ok() } { return Err(format!("{what}: truncated bytes are accepted").into()); }
        out = Some(y);
    }
    Ok(out.unwrap())
}
fn serialization(g: &mut Gen) -> R {
    let s = setup(g);
    let nv = g.size(1, s.trims.len().min(4));
    let (pp, vp) = &s.trims[g.size(nv, s.trims.len().min(4)) - 1];
    let t = table(g, nv);
    let z = point(g, nv);
    g.note(format!("parameters for {} f={}", pp.num_vars, shows(&t)));
    let m = dmle(&t);
    let pp2: Pp = rt("prover parameters", pp)?;
    let vp2: Vp = rt("verifier parameters", vp)?;
    if g.chance(1, 20) { g.tag("srs"); let s2 = rt("universal parameters", &setups()[1].srs)?; let (a, b) = Kzg::trim(&s2, None, Some(2)).map_err(err)?; let m = dmle(&frs(&[1, 2, 3, 4])); let (p, y) = Kzg::open(&a, &m, &frs(&[5, 6])).map_err(err)?; if !ver(&setups()[1].trims[1].1, &Kzg::commit(&setups()[1].trims[1].0, &m).map_err(err)?, &frs(&[5, 6]), &y, &p) || !ver(&b, &Kzg::commit(&a, &m).map_err(err)?, &frs(&[5, 6]), &y, &p) { return Err("restored universal parameters".into()); } }
    let c = Kzg::commit(&pp2, &m).map_err(err)?;
    if c != Kzg::commit(pp, &m).map_err(err)? { return Err("restored parameters commit differently".into()); }
    let (p, y) = Kzg::open(&pp2, &m, &z).map_err(err)?;
    let (c2, p2): (C, Pr) = (rt("commitment", &c)?, rt("proof", &p)?);
    if c2 != c || p2 != p { return Err("commitment or proof changes".into()); }
    if !ver(&vp2, &c2, &z, &y, &p2) || !ver(vp, &c2, &z, &y, &p2) { return Err("restored opening is refused".into()); }
    if ver(&vp2, &c2, &z, &(y + Fr::one()), &p2) { return Err("restored parameters accept a wrong value".into()); }
    Ok(true)
}

// ---------------------------------------------------------------- C07
pub struct Batch { pub tabs: Vec<Vec<Fr>>, pub polys: Vec<Arc<Dmle>>, pub comms: Vec<C>, pub points: Vec<Vec<Fr>>, pub evals: Vec<Fr> }
fn gen_batch(g: &mut Gen, pp: &Pp, nv: usize, k: usize) -> Result<Batch, Fail> {
    let mut tabs: Vec<Vec<Fr>> = vec![];
    let mut points: Vec<Vec<Fr>> = vec![];
    let shared = g.weighted(&[3, 3, 2]);
    for i in 0..k {
        if i > 0 && g.chance(1, 6) { let j = g.size(0, i - 1); let t = tabs[j].clone(); tabs.push(t) } else { tabs.push(table(g, nv)) }
        let same = i > 0 && match shared { 0 => false, 1 => true, _ => g.bool() };
        if same { let j = if shared == 1 { 0 } else { g.size(0, i - 1) }; let z = points[j].clone(); points.push(z) } else if i > 0 && g.chance(1, 4) { let j = g.size(0, i - 1); let c = g.size(0, nv - 1); let mut z = points[j].clone(); z[c] = g.fr(); points.push(z) } else { points.push(point(g, nv)) }
    }
    let polys: Vec<Arc<Dmle>> = tabs.iter().map(|t| Arc::new(dmle(t))).collect();
    let comms = polys.iter().map(|m| Kzg::commit(pp, m.as_ref())).collect::<Result<Vec<_>, _>>().map_err(err)?;
    let evals: Vec<Fr> = tabs.iter().zip(&points).map(|(t, z)| def_eval(t, z)).collect();
    g.note(format!("{k} polynomials of {nv} variables, evals={} points={}", shows(&evals), points.iter().map(|z| shows(z)).collect::<Vec<_>>().join(" ")));
    Ok(Batch { tabs, polys, comms, points, evals })
}
fn open(pp: &Pp, b: &Batch, evals: &[Fr], t: &mut T) -> Result<Bp, Fail> { Kzg::multi_open(pp, &b.polys, &b.points, evals, t).map_err(err) }
fn bver(vp: &Vp, comms: &[C], points: &[Vec<Fr>], p: &Bp, t: &T) -> bool { guarded(|| Kzg::batch_verify(vp, comms, points, p, &mut t.clone())).map_or(false, |r| r.unwrap_or(false)) }
pub fn batch_case(g: &mut Gen, kmax: usize) -> Result<(&'static Pp, &'static Vp, Batch, T, Bp), Fail> {
    let nv = if g.large { g.size(5, 10) } else { g.size(1, 4) };
    let (pp, vp) = if g.large { &setups()[3].trims[g.size(nv, 11) - 1] } else { &setups()[0].trims[g.size(nv, 7) - 1] };
    let k = if g.long { g.size(kmax, 40) } else { g.size(1, kmax) };
    let b = gen_batch(g, pp, nv, k)?;
    let t = history(g, true);
    let p = open(pp, &b, &b.evals, &mut t.clone())?;
    Ok((pp, vp, b, t, p))
}
fn batch_honest(g: &mut Gen) -> R {
    let (pp, vp, b, t, _) = batch_case(g, 9)?;
    let (mut tp, mut tv) = (t.clone(), t.clone());
    let p = open(pp, &b, &b.evals, &mut tp)?;
    if p.f_i_eval_at_point_i != b.evals { return Err("values in the proof".into()); }
    if !Kzg::batch_verify(vp, &b.comms, &b.points, &p, &mut tv).map_err(err)? { return Err(format!("the honest batch of {} is refused", b.polys.len()).into()); }
    if tp.get_and_append_challenge(b"zkv").unwrap() != tv.get_and_append_challenge(b"zkv").unwrap() { return Err("transcripts out of step".into()); }
    let distinct = { let mut z = b.points.clone(); z.sort(); z.dedup(); z.len() };
    if b.polys.len() == 1 { g.tag("single"); } else if distinct == 1 { g.tag("one-point"); } else { g.tag("several-points"); }
    Ok(b.tabs.iter().flatten().any(|x| !x.is_zero()))
}
fn batch_altered(g: &mut Gen) -> R {
    let (pp, vp, b, t, p) = batch_case(g, 6)?;
    let (k, nv) = (b.polys.len(), b.points[0].len());
    if !bver(vp, &b.comms, &b.points, &p, &t) { return Err("the honest batch is refused".into()); }
    let mut any = false;
    for _ in 0..3 {
        let (mut comms, mut points, mut q, mut h) = (b.comms.clone(), b.points.clone(), p.clone(), t.clone());
        let i = g.size(0, k - 1);
        let d = g.fr_nz();
        // a false statement, or evidence that differs
        let what = match g.below(11) {
            0 => { q.f_i_eval_at_point_i[i] += d; format!("value {i} off by {}", show(&d)) }
            1 => { let j = g.size(0, k - 1); q.f_i_eval_at_point_i.swap(i, j); if q == p { continue; } format!("values {i} and {j} swapped") }
            2 => { let j = g.size(0, nv - 1); points[i][j] += d; if def_eval(&b.tabs[i], &points[i]) == b.evals[i] { continue; } format!("point {i} altered") }
            3 => { let j = g.size(0, k - 1); points.swap(i, j); if (0..k).all(|l| def_eval(&b.tabs[l], &points[l]) == b.evals[l]) { continue; } format!("points {i} and {j} swapped") }
            4 => { let j = g.size(0, k - 1); comms.swap(i, j); if (0..k).all(|l| { let w = b.comms.iter().position(|c| *c == comms[l]).unwrap(); def_eval(&b.tabs[w], &points[l]) == b.evals[l] }) { continue; } format!("commitments {i} and {j} swapped") }
            5 => { let mut u = b.tabs[i].clone(); let l = g.size(0, u.len() - 1); u[l] += d; if def_eval(&u, &points[i]) == b.evals[i] { continue; } comms[i] = Kzg::commit(pp, &dmle(&u)).map_err(err)?; format!("commitment {i} to another polynomial") }
            6 => { let r = tamper_msgs(g, &*q.clone().verif_sum_check_proof_mut(), nv); match r { Some((x, w)) => { *q.verif_sum_check_proof_mut() = x; w } None => continue } }
            7 => { let j = g.size(0, nv - 1); q.verif_sum_check_proof_mut().point[j] += d; format!("coordinate {j} of the inner point altered") }
            8 => { let pr = q.verif_g_prime_proof_mut(); let j = g.size(0, nv - 1); if g.bool() { pr.proofs[j] = (pr.proofs[j] + gen_g1(g)).into_affine(); } else { pr.proofs[j] = gen_g1(g); } if q == p { continue; } format!("inner opening quotient {j} altered") }
            9 => { h.append_field_element(b"zkv history", &d).unwrap(); "another transcript history".into() }
            _ => { // consistent with another set of values: an honest proof for different polynomials
                let mut o = Batch { tabs: b.tabs.clone(), polys: b.polys.clone(), comms: vec![], points: b.points.clone(), evals: b.evals.clone() };
                for x in o.tabs[i].iter_mut() { *x += d; }
                o.polys[i] = Arc::new(dmle(&o.tabs[i]));
                o.evals[i] += d;
                q = open(pp, &o, &o.evals, &mut t.clone())?;
                format!("proof of polynomial {i} shifted by {}", show(&d))
            }
        };
        any = true;
        g.note(&what);
        if bver(vp, &comms, &points, &q, &h) { return Err(format!("batch of {k} accepted with {what}").into()); }
    }
    // a prover that opens honestly but claims other values
    let mut ev = b.evals.clone();
    let i = g.size(0, k - 1);
    let d = g.fr_nz();
    ev[i] += d;
    if k > 1 && g.bool() { let j = diff_idx(g, k, i); ev[j] -= d; }
    if let Ok(Ok(q)) = guarded(|| open(pp, &b, &ev, &mut t.clone())) { any = true; if bver(vp, &b.comms, &b.points, &q, &t) { return Err(format!("batch of {k} accepted with claimed values {}", shows(&ev)).into()); } }
    Ok(any)
}
/// Changes that cancel under coefficients the prover may know before committing to them.
fn batch_cancel(g: &mut Gen) -> R {
    let (pp, vp, b, t, p) = batch_case(g, 5)?;
    let (k, nv) = (b.polys.len(), b.points[0].len());
    let d = g.fr_nz();
    let a2 = p.clone().verif_sum_check_proof_mut().point.clone();
    match g.below(4) {
        0 if k >= 2 => {
            // the combination coefficients, read off runs of the prover on indicator polynomials
            let i = g.size(0, k - 1);
            let j = diff_idx(g, k, i);
            let mut coef = |l: usize| -> Result<Fr, Fail> {
                let n = 1 << nv;
                let o = Batch { tabs: vec![], polys: (0..k).map(|m| Arc::new(dmle(&vec![if m == l { Fr::one() } else { Fr::zero() }; n]))).collect(), comms: vec![], points: b.points.clone(), evals: vec![] };
                let mut q = open(pp, &o, &b.evals, &mut t.clone())?;
                let m = q.verif_sum_check_proof_mut().proofs[0].verif_evaluations().clone();
                Ok(m[0] + m[1])
            };
            let (ci, cj) = (coef(i)?, coef(j)?);
            let mut q = p.clone();
            q.f_i_eval_at_point_i[i] += cj * d;
            q.f_i_eval_at_point_i[j] -= ci * d;
            if q == p { return Ok(false); }
            g.tag("cancelling-values");
            if bver(vp, &b.comms, &b.points, &q, &t) { return Err(format!("values {i} and {j} changed against each other are accepted").into()); }
            let mut r = open(pp, &b, &q.f_i_eval_at_point_i, &mut t.clone())?;
            if bver(vp, &b.comms, &b.points, &r, &t) { return Err("prover with cancelling values accepted".into()); }
            *r.verif_sum_check_proof_mut() = p.clone().verif_sum_check_proof_mut().clone();
            if bver(vp, &b.comms, &b.points, &r, &t) { return Err("prover with cancelling values accepted".into()); }
        }
        1 if nv >= 2 => {
            // another point with the same eq(a2, point): chosen after the proof
            let i = g.size(0, k - 1);
            let x = g.size(0, nv - 1);
            let y = diff_idx(g, nv, x);
            let f = |a: Fr, z: Fr| a * z + (Fr::one() - a) * (Fr::one() - z);
            let mut points = b.points.clone();
            let old = f(a2[x], points[i][x]) * f(a2[y], points[i][y]);
            points[i][x] += d;
            let fx = f(a2[x], points[i][x]);
            let slope = a2[y].double() - Fr::one();
            if fx.is_zero() || slope.is_zero() { return Ok(false); }
            // slope*z + (1-a) = old/fx
            points[i][y] = (old / fx - (Fr::one() - a2[y])) / slope;
            if def_eval(&b.tabs[i], &points[i]) == b.evals[i] { return Ok(false); }
            g.tag("equivalent-point");
            if bver(vp, &b.comms, &points, &p, &t) { return Err(format!("a point chosen after the proof is accepted for polynomial {i}").into()); }
        }
        2 if k == 1 => {
            // open the combined polynomial at a point of the prover's choice
            let o = Batch { tabs: vec![], polys: vec![Arc::new(dmle(&b.tabs[0].iter().map(|x| *x + d).collect::<Vec<_>>()))], comms: vec![], points: b.points.clone(), evals: vec![] };
            let mut q = open(pp, &o, &[b.evals[0] + d], &mut t.clone())?;
            let a = q.verif_sum_check_proof_mut().point.clone();
            let z = &b.points[0];
            let eq = |x: &[Fr]| x.iter().zip(z).map(|(a, z)| *a * z + (Fr::one() - a) * (Fr::one() - z)).product::<Fr>();
            let target = (def_eval(&b.tabs[0], &a) + d) * eq(&a);
            // eq(x)*f(x) is quadratic in the first coordinate: find a root of q(x) - target
            let mut x = a.clone();
            let val = |x: &[Fr]| eq(x) * def_eval(&b.tabs[0], x) - target;
            for _ in 0..6 {
                let at = |v: Fr, x: &[Fr]| { let mut y = x.to_vec(); y[0] = v; val(&y) };
                let (v0, v1, v2) = (at(Fr::zero(), &x), at(Fr::one(), &x), at(fr(2), &x));
                let half = fr(2).inverse().unwrap();
                let qa = (v2 - v1.double() + v0) * half;
                let qb = v1 - v0 - qa;
                let root = if qa.is_zero() { if qb.is_zero() { None } else { Some(-v0 / qb) } } else { (qb * qb - fr(4) * qa * v0).sqrt().map(|s| (s - qb) * half / qa) };
                if let Some(r) = root { x[0] = r; break; }
                if nv == 1 { break; }
                for c in x.iter_mut().skip(1) { *c = g.fr_random(); }
            }
            if !val(&x).is_zero() || x == a { return Ok(false); }
            let gp: Vec<Fr> = b.tabs[0].iter().map(|v| *v * eq(&x)).collect();
            *q.verif_g_prime_proof_mut() = Kzg::open(pp, &dmle(&gp), &x).map_err(err)?.0;
            q.verif_sum_check_proof_mut().point = x;
            g.tag("own-point");
            if bver(vp, &b.comms, &b.points, &q, &t) { return Err("a false value is accepted with the inner opening at a point of the prover's choice".into()); }
        }
        _ => {
            // equal weights guessed
            let mut q = p.clone();
            let i = g.size(0, k - 1);
            q.f_i_eval_at_point_i[i] += d;
            if k > 1 { let j = diff_idx(g, k, i); q.f_i_eval_at_point_i[j] -= d; }
            if bver(vp, &b.comms, &b.points, &q, &t) { return Err("values changed against each other are accepted".into()); }
        }
    }
    Ok(true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "tables of 2-128 values (random, single-entry, constant, one variable only), parameters for 1-7 variables trimmed at random; non-trivial: a table that is not all zero, parameters for more than one variable",
            families: vec![fam("opening", 4000, 100000, opening).dbg(2), fam("algebra", 3000, 80000, algebra).dbg(2), fam("params", 400, 10000, params).dbg(2), fam("serialization", 800, 20000, serialization).dbg(2), fam("opening-large", 200, 6000, crate::large!(opening)).dbg(2), fam("algebra-large", 150, 5000, crate::large!(algebra)).dbg(2)],
            assumptions: vec!["curve BLS12-381 only", "binding is tested by generated wrong openings, not by solving for the setup secret"] },
        Prop { id: "C07", rule: "1-9 polynomials of 1-4 variables at equal, distinct or mixed points; alterations of every part, and cancelling changes; non-trivial: something was altered, or a non-zero table",
            families: vec![fam("honest", 1500, 40000, batch_honest).dbg(2), fam("altered", 2000, 50000, batch_altered).dbg(2), fam("cancelling", 2500, 60000, batch_cancel).dbg(2), fam("honest-long", 60, 3000, crate::long!(batch_honest)).dbg(2), fam("honest-large", 60, 3000, crate::large!(batch_honest)).dbg(2), fam("altered-long", 60, 3000, crate::long!(batch_altered)).dbg(2), fam("altered-large", 60, 3000, crate::large!(batch_altered)).dbg(2), fam("cancelling-long", 60, 3000, crate::long!(batch_cancel)).dbg(2)],
            assumptions: vec!["the commitments are part of the transcript before the batch is opened, as the tracker ensures; a forgery that picks commitments afterwards is out of scope"] },
    ]
}
