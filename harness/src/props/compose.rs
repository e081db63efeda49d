//! C27: any sequence of operators in one proof. The families of the single operators are run in
//! three phases: once to learn the statement (nothing is proved), once against a shared prover
//! tracker, once against a shared verifier tracker that holds the compiled proof. Columns may be
//! shared between statements, or derived from others instead of committed.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use crate::*;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, UniformRand, Zero};
use rand_chacha::rand_core::{RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hook::CompiledZKSQLProof;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Phase { Record, Prove, Verify }
#[derive(Clone)]
enum Rec { Have(usize), Commit(TrackerID), AddS(Box<Rec>, Fr), MulS(Box<Rec>, Fr), Add(Box<Rec>, Box<Rec>), Sub(Box<Rec>, Box<Rec>), Mul(Box<Rec>, Box<Rec>) }
struct Session<P: TestPcs> {
    pt: PT<P>, cols: Vec<(Vec<Fr>, TP<P>)>, plans: Vec<Vec<Rec>>,
    vt: Option<VT<P>>, vcols: Vec<TC<P>>, next: usize, nv: usize,
    rng: ChaCha8Rng, share: u64, derive: u64, prod: bool, shared: usize, derived: usize,
}
struct Ctx { phase: Phase, scheme: Scheme, session: Option<Box<dyn Any>>, stop: Option<String> }
thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static PRINT: RefCell<Option<[(&'static str, u64); 4]>> = RefCell::new(None);
}
/// What the proof of the last session on this thread consists of.
fn print_of<P: TestPcs>(p: &CompiledZKSQLProof<E, P>) -> [(&'static str, u64); 4] {
    use ark_serialize::CanonicalSerialize;
    let mut cs: Vec<(usize, Fr)> = p.sumcheck_claims.iter().map(|(k, v)| (k.0, *v)).collect();
    cs.sort();
    let mut cm: Vec<(usize, Vec<u8>)> = p.comms.iter().map(|(k, v)| { let mut b = vec![]; v.serialize_compressed(&mut b).unwrap(); (k.0, b) }).collect();
    cm.sort();
    let h = |s: String| crate::gen::hash_str(&s);
    [("commitments", h(format!("{cm:?}"))), ("claimed sums", h(format!("{cs:?}"))), ("sumcheck proof", h(format!("{:?}", p.sc_proof))), ("opening proof", h(format!("{:?}", p.pcs_proof)))]
}

pub fn scheme() -> Option<Scheme> { CTX.with(|c| c.borrow().as_ref().map(|c| c.scheme)) }
fn phase() -> Option<Phase> { CTX.with(|c| c.borrow().as_ref().map(|c| c.phase)) }
fn session<P: TestPcs, R>(f: impl FnOnce(&mut Session<P>) -> R) -> R {
    // taken out while `f` runs: the operator may register outputs, which opens it again
    let s = CTX.with(|c| c.borrow_mut().as_mut().unwrap().session.as_ref().expect("no session").downcast_ref::<Rc<RefCell<Session<P>>>>().expect("other scheme").clone());
    let mut s = s.borrow_mut();
    f(&mut s)
}

/// Columns that an operator returns can be inputs of later statements.
pub fn outputs<'a, P: TestPcs>(t: impl IntoIterator<Item = &'a TP<P>>) {
    if phase() != Some(Phase::Prove) { return; }
    let v: Vec<_> = t.into_iter().map(|x| (x.evaluations(), x.clone())).collect();
    session::<P, _>(|s| s.cols.extend(v));
}
pub fn outputs_v<'a, P: TestPcs>(t: impl IntoIterator<Item = &'a TC<P>>) {
    if phase() != Some(Phase::Verify) { return; }
    let v: Vec<_> = t.into_iter().cloned().collect();
    session::<P, _>(|s| s.vcols.extend(v));
}
/// A sum over 2^nv rows as the verifier has to claim it: at the size of the whole proof.
pub fn scaled<P: TestPcs>(sum: Fr, nv: usize) -> Fr {
    if phase() != Some(Phase::Verify) { return sum; }
    session::<P, _>(|s| sum * Fr::from(2u64).pow([(s.nv - nv) as u64]))
}

fn commit<P: TestPcs>(s: &mut Session<P>, c: &[Fr]) -> Res<(Rec, TP<P>)> {
    let p = s.pt.track_and_commit_poly(dmle(c)).map_err(PolyIOPErrors::from)?;
    Ok((Rec::Commit(p.id), p))
}
fn part<P: TestPcs>(s: &mut Session<P>, c: &[Fr]) -> Res<(Rec, TP<P>)> {
    let same: Vec<usize> = (0..s.cols.len()).filter(|i| s.cols[*i].0 == c).collect();
    if !same.is_empty() && s.rng.next_u64() % 8 < s.share {
        let i = same[s.rng.next_u64() as usize % same.len()];
        s.shared += 1;
        return Ok((Rec::Have(i), s.cols[i].1.clone()));
    }
    if s.rng.next_u64() % 16 < s.derive {
        s.derived += 1;
        let x = Fr::rand(&mut s.rng);
        match s.rng.next_u64() % 6 {
            0 => { let (r, p) = commit(s, &c.iter().map(|y| *y - x).collect::<Vec<_>>())?; return Ok((Rec::AddS(Box::new(r), x), p.add_scalar(x))); }
            1 => { let d = x.inverse().unwrap(); let (r, p) = commit(s, &c.iter().map(|y| *y * d).collect::<Vec<_>>())?; return Ok((Rec::MulS(Box::new(r), x), p.mul_scalar(x))); }
            k @ (2 | 3) => { // plus or minus a column that is already there
                let fit: Vec<usize> = (0..s.cols.len()).filter(|i| s.cols[*i].0.len() == c.len()).collect();
                if !fit.is_empty() {
                    let i = fit[s.rng.next_u64() as usize % fit.len()];
                    let (e, q) = s.cols[i].clone();
                    let w: Vec<Fr> = c.iter().zip(&e).map(|(y, z)| if k == 2 { *y - *z } else { *y + *z }).collect();
                    let (r, p) = commit(s, &w)?;
                    let h = Box::new(Rec::Have(i));
                    return Ok(if k == 2 { (Rec::Add(h, Box::new(r)), q.add_poly(&p)) } else { (Rec::Sub(Box::new(r), h), p.sub_poly(&q)) });
                }
            }
            4 if s.prod => {
                let d: Vec<Fr> = c.iter().map(|_| Fr::rand(&mut s.rng)).collect();
                let (a, p) = commit(s, &d)?;
                let (b, q) = commit(s, &c.iter().zip(&d).map(|(y, z)| *y * z.inverse().unwrap()).collect::<Vec<_>>())?;
                return Ok((Rec::Mul(Box::new(a), Box::new(b)), p.mul_poly(&q)));
            }
            _ => {
                let d: Vec<Fr> = c.iter().map(|_| Fr::rand(&mut s.rng)).collect();
                let (a, p) = commit(s, &d)?;
                let (b, q) = commit(s, &c.iter().zip(&d).map(|(y, z)| *z - *y).collect::<Vec<_>>())?;
                return Ok((Rec::Sub(Box::new(a), Box::new(b)), p.sub_poly(&q)));
            }
        }
    }
    commit(s, c)
}
fn build<P: TestPcs>(s: &mut Session<P>, r: &Rec) -> TC<P> {
    match r {
        Rec::Have(i) => s.vcols[*i].clone(),
        Rec::Commit(id) => s.vt.as_mut().unwrap().transfer_prover_comm(*id),
        Rec::AddS(a, x) => build(s, a).add_scalar(*x),
        Rec::MulS(a, x) => build(s, a).mul_scalar(*x),
        Rec::Add(a, b) => { let a = build(s, a); a.add_comms(&build(s, b)) }
        Rec::Sub(a, b) => { let a = build(s, a); a.sub_comms(&build(s, b)) }
        Rec::Mul(a, b) => { let a = build(s, a); a.mul_comms(&build(s, b)) }
    }
}
/// Called by `run_op`: the part of an operator run that belongs to the current phase.
pub fn step<P: TestPcs>(cols: &[Vec<Fr>], prove: &mut dyn FnMut(&mut PT<P>, &[TP<P>]) -> Res<()>, verify: &mut dyn FnMut(&mut VT<P>, &[TC<P>]) -> Res<()>) -> Option<Outcome> {
    let r = match phase()? {
        Phase::Record => Ok(()),
        Phase::Prove => prove_step(cols, prove),
        Phase::Verify => verify_step(verify),
    };
    if let Err(m) = r { CTX.with(|c| c.borrow_mut().as_mut().unwrap().stop = Some(m)); }
    Some(Outcome { verdict: Verdict::Accept, mirror: None })
}
fn prove_step<P: TestPcs>(cols: &[Vec<Fr>], prove: &mut dyn FnMut(&mut PT<P>, &[TP<P>]) -> Res<()>) -> Result<(), String> {
    let r = guarded(|| -> Res<()> {
        let (mut pt, polys) = session::<P, _>(|s| -> Res<_> {
            let (mut plan, mut polys) = (vec![], vec![]);
            for c in cols {
                let (r, p) = part(s, c)?;
                s.cols.push((c.clone(), p.clone()));
                plan.push(r);
                polys.push(p);
            }
            s.plans.push(plan);
            Ok((s.pt.clone(), polys))
        })?;
        prove(&mut pt, &polys)
    });
    match r { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("prover: {e:?}")), Err(p) => Err(format!("prover: {p}")) }
}
fn verify_step<P: TestPcs>(verify: &mut dyn FnMut(&mut VT<P>, &[TC<P>]) -> Res<()>) -> Result<(), String> {
    let r = guarded(|| -> Res<()> {
        let (mut vt, comms) = session::<P, _>(|s| {
            let plan = s.plans[s.next].clone();
            s.next += 1;
            let mut comms = vec![];
            for r in &plan { let c = build(s, r); s.vcols.push(c.clone()); comms.push(c); }
            (s.vt.clone().unwrap(), comms)
        });
        verify(&mut vt, &comms)
    });
    match r { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("verifier: {e:?}")), Err(p) => Err(format!("verifier: {p}")) }
}

/// One statement: a family case with its own choices.
pub struct Item { pub run: Box<dyn Fn(&mut Gen) -> R + Send + Sync>, pub choices: Vec<u64>, pub name: &'static str }
/// What happens between two statements.
#[derive(Clone, Debug)]
enum Between { Chal, Append(Fr), Sum(usize, Fr), Square(usize, Option<usize>) }
enum Did { True, False, Nothing }
fn exec(g: &Gen, it: &Item) -> Did {
    let mut h = Gen::replay(it.choices.clone());
    (h.large, h.limb, h.twins) = (g.large, g.limb, g.twins);
    did(guarded(|| (it.run)(&mut h)))
}
fn did(r: Result<R, String>) -> Did {
    match r { Ok(Err(Fail { sig: Some("STATEMENT-TRUE"), .. })) => Did::True, Ok(Err(Fail { sig: Some("STATEMENT-FALSE"), .. })) => Did::False, _ => Did::Nothing }
}
struct Leave;
impl Drop for Leave { fn drop(&mut self) { let c = CTX.with(|c| c.borrow_mut().take()); drop(c); } }
/// Is the item a statement, and is it true? Its choices are recorded.
fn truth(g: &mut Gen, sc: Scheme, it: &mut Item) -> Option<bool> {
    CTX.with(|c| *c.borrow_mut() = Some(Ctx { phase: Phase::Record, scheme: sc, session: None, stop: None }));
    let _l = Leave;
    let (at, long) = (g.used.len(), g.long);
    g.long = false;
    g.forget();
    let d = did(guarded(|| (it.run)(g)));
    g.long = long;
    it.choices = g.used[at..].to_vec();
    match d { Did::True => Some(true), Did::False => Some(false), Did::Nothing => None }
}
fn between_p<P: TestPcs>(b: &Between) -> Result<(), String> {
    guarded(|| session::<P, _>(|s| -> Res<()> {
        let n = s.cols.len();
        match b {
            Between::Chal => { s.pt.get_and_append_challenge(b"between").map_err(PolyIOPErrors::from)?; }
            Between::Append(x) => s.pt.append_serializable_element(b"between", x).map_err(PolyIOPErrors::from)?,
            Between::Sum(i, d) => if n > 0 { let (t, p) = s.cols[i % n].clone(); s.pt.add_sumcheck_claim(p.id, t.iter().sum::<Fr>() + d); },
            Between::Square(i, e) => if n > 0 {
                let (t, p) = s.cols[i % n].clone();
                let mut w: Vec<Fr> = t.iter().map(|x| *x * *x).collect();
                if let Some(e) = e { let k = e % w.len(); w[k] += Fr::one(); }
                let (_, q) = commit(s, &w)?;
                let z = p.mul_poly(&p).sub_poly(&q);
                s.pt.add_zerocheck_claim(z.id);
                s.plans.push(vec![Rec::Commit(q.id)]);
            },
        }
        Ok(())
    })).unwrap_or_else(|p| panic!("{p}")).map_err(|e| format!("{e:?}"))
}
fn between_v<P: TestPcs>(b: &Between, sums: &[Vec<Fr>]) {
    session::<P, _>(|s| {
        let n = s.vcols.len();
        let mut vt = s.vt.clone().unwrap();
        match b {
            Between::Chal => { vt.get_and_append_challenge(b"between").unwrap(); }
            Between::Append(x) => vt.append_serializable_element(b"between", x).unwrap(),
            Between::Sum(i, d) => if n > 0 { let t = &sums[i % n]; let c = (t.iter().sum::<Fr>() + d) * Fr::from(2u64).pow([(s.nv - log2(t.len())) as u64]); vt.add_sumcheck_claim(s.vcols[i % n].id, c); },
            Between::Square(i, _) => if n > 0 {
                let plan = s.plans[s.next].clone();
                s.next += 1;
                let q = build(s, &plan[0]);
                let p = s.vcols[i % n].clone();
                let z = p.mul_comms(&p).sub_comms(&q);
                vt.add_zerocheck_claim(z.id);
            },
        }
    })
}
fn stop() -> Option<String> { CTX.with(|c| c.borrow_mut().as_mut().and_then(|c| c.stop.take())) }

/// `Ok` if accepted, otherwise why not; the flag says whether trackers fell out of step
fn run_all<P: TestPcs>(g: &Gen, sc: Scheme, items: &[Item], between: &[Vec<Between>], opt: (u64, u64, bool, u64), stats: &mut (usize, usize, usize)) -> (Result<(), String>, Option<String>) {
    let (pp, vp) = P::params();
    let s = Rc::new(RefCell::new(Session::<P> { pt: PT::<P>::new_from_pcs_params(pp), cols: vec![], plans: vec![], vt: None, vcols: vec![], next: 0, nv: 0,
        rng: ChaCha8Rng::seed_from_u64(opt.3), share: opt.0, derive: opt.1, prod: opt.2, shared: 0, derived: 0 }));
    CTX.with(|c| *c.borrow_mut() = Some(Ctx { phase: Phase::Prove, scheme: sc, session: Some(Box::new(s.clone())), stop: None }));
    let _l = Leave;
    for (k, it) in items.iter().enumerate() {
        for b in &between[k] { if let Err(e) = between_p::<P>(b) { return (Err(e), None); } }
        if matches!(exec(g, it), Did::Nothing) { return (Err(format!("harness: {} did not reach its verdict while proving", it.name)), None); }
        if let Some(m) = stop() { return (Err(format!("{} (statement {k}): {m}", it.name)), None); }
    }
    let done = guarded(|| { let mut t = s.borrow().pt.clone(); let snap = t.deep_copy(); t.compile_proof().map(|p| (snap, p)) });
    let (snap, proof): (PT<P>, CompiledZKSQLProof<E, P>) = match done { Ok(Ok(x)) => x, Ok(Err(e)) => return (Err(format!("compile: {e:?}")), None), Err(p) => return (Err(format!("compile: {p}")), None) };
    PRINT.with(|c| *c.borrow_mut() = Some(print_of(&proof)));
    let tables: Vec<Vec<Fr>> = s.borrow().cols.iter().map(|c| c.0.clone()).collect();
    { let mut b = s.borrow_mut(); b.nv = proof.sc_aux_info.num_variables; *stats = (b.shared, b.derived, b.nv); let mut vt = new_vt::<P>(vp); vt.set_compiled_proof(proof); b.vt = Some(vt); }
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().phase = Phase::Verify);
    for (k, it) in items.iter().enumerate() {
        for b in &between[k] { if let Err(p) = guarded(|| between_v::<P>(b, &tables)) { return (Err(format!("verifier: {p}")), None); } }
        if matches!(exec(g, it), Did::Nothing) { return (Err(format!("harness: {} did not reach its verdict while verifying", it.name)), None); }
        if let Some(m) = stop() { return (Err(format!("{} (statement {k}): {m}", it.name)), None); }
    }
    let vt = s.borrow().vt.clone().unwrap();
    let mirror = guarded(|| compare_mirror(&snap, &vt, opt.3)).unwrap_or_else(|p| Some(format!("comparison panicked: {p}")));
    let r = match guarded(|| vt.verify_claims()) { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(p) };
    (r, mirror)
}

pub type Part = (&'static str, fn(&mut Gen) -> R);
fn parts() -> Vec<Part> { [super::ops_bag::parts(), super::ops_set::parts(), super::ops_table::parts()].concat() }
fn between(g: &mut Gen, falses: &mut bool) -> Vec<Between> {
    let mut v = vec![];
    if g.chance(1, 3) { for _ in 0..g.size(1, 2) {
        v.push(match g.below(6) {
            0 => Between::Chal,
            1 => Between::Append(g.fr()),
            2 | 3 => { let i = g.size(0, 63); let d = if *falses && g.chance(1, 3) { *falses = false; g.fr_nz() } else { Fr::zero() }; Between::Sum(i, d) }
            _ => { let i = g.size(0, 63); let e = if *falses && g.chance(1, 3) { *falses = false; Some(g.size(0, 63)) } else { None }; Between::Square(i, e) }
        });
    } }
    v
}
fn decide(g: &mut Gen, sc: Scheme, items: Vec<Item>, truths: Vec<bool>, betw: Vec<Vec<Between>>, opt: (u64, u64, bool, u64)) -> Result<(usize, usize, usize), Fail> {
    // a false interlude before any column exists says nothing
    let mut want = truths.iter().all(|t| *t);
    for (k, b) in betw.iter().enumerate() { if k > 0 { for x in b { if matches!(x, Between::Sum(_, d) if !d.is_zero()) || matches!(x, Between::Square(_, Some(_))) { want = false; } } } }
    let opt = (opt.0, opt.1, opt.2 && !items.iter().any(|i| i.name == "cross product"), opt.3);
    g.note(format!("between={betw:?} share={}/8 derive={}/16 want={want}", opt.0, opt.1));
    let mut stats = (0, 0, 0);
    let (r, mirror) = with_scheme!(sc, run_all, g, sc, &items, &betw, opt, &mut stats);
    g.tag(if want { "all-true" } else { "one-false" });
    if stats.0 > 0 { g.tag("shared-columns"); }
    if stats.1 > 0 { g.tag("derived-columns"); }
    for i in &items { g.tag(i.name); }
    if let Err(m) = &r { if m.starts_with("harness: ") { return Err(m.as_str().into()); } }
    if let Some(m) = mirror { return Err(format!("operators in one proof: verifier does not mirror the prover: {m}").into()); }
    if r.is_ok() != want { return Err(format!("{} operators in one proof: the conjunction is {want}, verdict {r:?}", items.len()).into()); }
    Ok(stats)
}
fn options(g: &mut Gen) -> (u64, u64, bool, u64) { (*g.pick(&[0u64, 6, 7, 8]), *g.pick(&[0u64, 3, 8]), true, g.below(1 << 32)) }
/// One statement whose equal columns are mostly the same tracked column.
pub fn single(g: &mut Gen, f: fn(&mut Gen) -> R) -> R {
    let sc = pick_scheme(g, 12);
    let mut it = Item { run: Box::new(f), choices: vec![], name: "one" };
    let Some(t) = truth(g, sc, &mut it) else { return Ok(false) };
    let opt = (7, *g.pick(&[0u64, 0, 2]), false, g.below(1 << 32));
    let s = decide(g, sc, vec![it], vec![t], vec![vec![]], opt)?;
    Ok(s.0 > 0)
}
fn c27_sequence(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 12);
    let all = parts();
    let n = g.size(1, g.lor(4, 14));
    let mut may_fail = g.bool();
    let (mut items, mut truths, mut betw) = (vec![], vec![], vec![]);
    for k in 0..n {
        let (name, run) = *g.pick(&all);
        let b = if k == 0 || items.is_empty() { vec![] } else { between(g, &mut may_fail) };
        for _ in 0..6 {
            let mut it = Item { run: Box::new(run), choices: vec![], name };
            g.note(name);
            let Some(t) = truth(g, sc, &mut it) else { continue };
            if !t { if !may_fail { g.note("(left out)"); continue; } may_fail = false; }
            items.push(it);
            truths.push(t);
            betw.push(b);
            break;
        }
    }
    if items.is_empty() { return Ok(false); }
    let opt = options(g);
    let n = items.len();
    decide(g, sc, items, truths, betw, opt)?;
    Ok(n > 1)
}
/// a query: every step works on the table the step before returned
fn c27_query(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 12);
    let mut may_fail = g.bool();
    let steps = super::ops_table::query(g, &mut may_fail);
    let (mut items, mut truths, mut betw) = (vec![], vec![], vec![]);
    for mut it in steps {
        g.note(it.name);
        let Some(t) = truth(g, sc, &mut it) else { continue };
        items.push(it);
        truths.push(t);
        let b = if betw.is_empty() { vec![] } else { between(g, &mut may_fail) };
        betw.push(b);
    }
    if items.is_empty() { return Ok(false); }
    let opt = options(g);
    let n = items.len();
    decide(g, sc, items, truths, betw, opt)?;
    Ok(n > 1)
}
/// C26: the same operators on the same columns give the same proof, on any number of threads.
pub fn repeatable(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 10);
    let all = parts();
    let (mut items, mut betw) = (vec![], vec![]);
    for _ in 0..g.size(1, 3) {
        let (name, run) = *g.pick(&all);
        let b = if items.is_empty() { vec![] } else { between(g, &mut false) };
        let mut it = Item { run: Box::new(run), choices: vec![], name };
        g.note(name);
        if truth(g, sc, &mut it).is_none() { continue; }
        items.push(it);
        betw.push(b);
    }
    if items.is_empty() { return Ok(false); }
    let opt = options(g);
    let mode = (g.large, g.limb, g.twins);
    let once = |which: Option<usize>| {
        let run = || {
            let mut h = Gen::replay(vec![]);
            (h.large, h.limb, h.twins) = mode;
            PRINT.with(|c| *c.borrow_mut() = None);
            let mut stats = (0, 0, 0);
            let (r, _) = with_scheme!(sc, run_all, &h, sc, &items, &betw, opt, &mut stats);
            crate::pipe::free_leftovers();
            (r.is_ok(), PRINT.with(|c| c.borrow_mut().take()))
        };
        match which { Some(k) => super::trackers::pools()[k].lock().unwrap_or_else(|e| e.into_inner()).install(run), None => run() }
    };
    let first = once(None);
    let k = g.size(0, super::trackers::pools().len() - 1);
    for which in [None, Some(k)] {
        let x = once(which);
        let on = which.map_or("on another run".to_string(), |k| format!("with thread pool {k}"));
        if x.0 != first.0 || x.1.is_some() != first.1.is_some() { return Err(format!("another verdict {on}").into()); }
        if let (Some(a), Some(b)) = (&first.1, &x.1) {
            for (u, v) in a.iter().zip(b) { if u.1 != v.1 { return Err(format!("another {} {on}", u.0).into()); } }
        }
    }
    for i in &items { g.tag(i.name); }
    g.tag(if first.0 { "accepted" } else { "refused" });
    Ok(first.1.is_some())
}
fn c27_twins(g: &mut Gen) -> R { g.twins = true; c27_sequence(g) }
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "at least two operators in the proof",
        families: vec![
            fam("sequence", 4500, 120000, c27_sequence).dbg(5),
            fam("sequence-twins", 3000, 80000, c27_twins).dbg(5),
            fam("query", 6000, 150000, c27_query).dbg(5),
            fam("sequence-long", 300, 6000, long!(c27_sequence)),
            fam("sequence-large", 60, 1500, large!(c27_sequence)),
            fam("query-large", 60, 1500, large!(c27_query)),
        ],
        assumptions: vec![],
    }]
}
