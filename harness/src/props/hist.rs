//! Tracker histories as data: one generated program is interpreted by the prover, by the
//! verifier and by a plain reference over evaluation tables and expressions.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::props::arith::*;
use crate::runner::*;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hook::CompiledZKSQLProof;

#[derive(Clone, Debug)]
pub enum St {
    Commit(Vec<Fr>), Track(Vec<Fr>),
    Add(usize, usize), Sub(usize, usize), Mul(usize, usize),
    AddS(usize, Fr), MulS(usize, Fr),
    /// scalar = latest challenge
    AddC(usize), MulC(usize),
    Front(usize, usize), Back(usize, usize),
    Chal, Append(Fr),
    /// claim; the flag says whether the verifier takes the sum from the proof
    Sum(usize, bool), Zero(usize),
    Read(usize),
}
impl St {
    pub fn node(&self) -> bool { !matches!(self, St::Chal | St::Append(_) | St::Sum(..) | St::Zero(_) | St::Read(_)) }
    pub fn show(&self) -> String {
        match self {
            St::Commit(t) => format!("commit{}", shows(&t[..t.len().min(16)])), St::Track(t) => format!("track{}", shows(&t[..t.len().min(16)])),
            St::Add(a, b) => format!("{a}+{b}"), St::Sub(a, b) => format!("{a}-{b}"), St::Mul(a, b) => format!("{a}*{b}"),
            St::AddS(a, c) => format!("{a}+c{}", show(c)), St::MulS(a, c) => format!("{a}*c{}", show(c)), St::AddC(a) => format!("{a}+ch"), St::MulC(a) => format!("{a}*ch"),
            St::Front(a, k) => format!("front({a},{k})"), St::Back(a, k) => format!("back({a},{k})"), St::Chal => "ch".into(), St::Append(x) => format!("append {}", show(x)),
            St::Sum(a, p) => format!("SUM {a}{}", if *p { " from proof" } else { "" }), St::Zero(a) => format!("ZERO {a}"), St::Read(a) => format!("read {a}"),
        }
    }
}
/// a node of the reference
#[derive(Clone, Debug)]
pub struct N { pub nv: usize, pub tab: Vec<Fr>, pub deg: usize, pub terms: usize, pub st: St,
    /// depends on a grown polynomial of degree >= 2: only its values on the hypercube are defined
    pub cube_only: bool }
pub struct Ref { pub nodes: Vec<N> }
impl Ref {
    pub fn apply(&mut self, s: &St, ch: Fr) {
        let n = &self.nodes;
        let zip = |a: usize, b: usize, f: &dyn Fn(Fr, Fr) -> Fr| -> Vec<Fr> { n[a].tab.iter().zip(&n[b].tab).map(|(x, y)| f(*x, *y)).collect() };
        let map = |a: usize, f: &dyn Fn(Fr) -> Fr| -> Vec<Fr> { n[a].tab.iter().map(|x| f(*x)).collect() };
        let one = |a: usize| (n[a].nv, n[a].deg, n[a].cube_only);
        let (nv, tab, deg, terms, cube_only) = match s {
            St::Commit(t) | St::Track(t) => (log2(t.len()), t.clone(), 1, 1, false),
            St::Add(a, b) => (n[*a].nv, zip(*a, *b, &|x, y| x + y), n[*a].deg.max(n[*b].deg), n[*a].terms + n[*b].terms, n[*a].cube_only || n[*b].cube_only),
            St::Sub(a, b) => (n[*a].nv, zip(*a, *b, &|x, y| x - y), n[*a].deg.max(n[*b].deg), n[*a].terms + n[*b].terms, n[*a].cube_only || n[*b].cube_only),
            St::Mul(a, b) => (n[*a].nv, zip(*a, *b, &|x, y| x * y), n[*a].deg + n[*b].deg, n[*a].terms * n[*b].terms, n[*a].cube_only || n[*b].cube_only),
            St::AddS(a, c) => { let o = one(*a); (o.0, map(*a, &|x| x + c), o.1, n[*a].terms + 1, o.2) }
            St::MulS(a, c) => { let o = one(*a); (o.0, map(*a, &|x| x * c), o.1, n[*a].terms, o.2) }
            St::AddC(a) => { let o = one(*a); (o.0, map(*a, &|x| x + ch), o.1, n[*a].terms + 1, o.2) }
            St::MulC(a) => { let o = one(*a); (o.0, map(*a, &|x| x * ch), o.1, n[*a].terms, o.2) }
            St::Front(a, k) => (n[*a].nv + k, (0..n[*a].tab.len() << k).map(|i| n[*a].tab[i >> k]).collect(), 1, 1, n[*a].cube_only || n[*a].deg > 1),
            St::Back(a, k) => { let l = n[*a].tab.len(); (n[*a].nv + k, (0..l << k).map(|i| n[*a].tab[i & (l - 1)]).collect(), 1, 1, n[*a].cube_only || n[*a].deg > 1) }
            _ => return,
        };
        let mut st = s.clone();
        match st { St::AddC(a) => st = St::AddS(a, ch), St::MulC(a) => st = St::MulS(a, ch), _ => {} }
        self.nodes.push(N { nv, tab, deg, terms, st, cube_only });
    }
    /// the expression that created the node, at any point
    pub fn at(&self, i: usize, p: &[Fr]) -> Fr {
        assert_eq!(p.len(), self.nodes[i].nv);
        match &self.nodes[i].st {
            St::Commit(t) | St::Track(t) => def_eval(t, p),
            St::Add(a, b) => self.at(*a, p) + self.at(*b, p), St::Sub(a, b) => self.at(*a, p) - self.at(*b, p), St::Mul(a, b) => self.at(*a, p) * self.at(*b, p),
            St::AddS(a, c) => self.at(*a, p) + c, St::MulS(a, c) => self.at(*a, p) * c,
            St::Front(a, k) => self.at(*a, &p[*k..]), St::Back(a, _) => { let n = self.nodes[*a].nv; self.at(*a, &p[..n]) }
            _ => unreachable!(),
        }
    }
    /// as `at`, but a grown polynomial is the multilinear extension of its values
    pub fn at_mle(&self, i: usize, p: &[Fr]) -> Fr {
        match &self.nodes[i].st {
            St::Add(a, b) => self.at_mle(*a, p) + self.at_mle(*b, p), St::Sub(a, b) => self.at_mle(*a, p) - self.at_mle(*b, p), St::Mul(a, b) => self.at_mle(*a, p) * self.at_mle(*b, p),
            St::AddS(a, c) => self.at_mle(*a, p) + c, St::MulS(a, c) => self.at_mle(*a, p) * c,
            _ => def_eval(&self.nodes[i].tab, p),
        }
    }
    pub fn sum(&self, i: usize) -> Fr { self.nodes[i].tab.iter().sum() }
    pub fn zero(&self, i: usize) -> bool { self.nodes[i].tab.iter().all(|x| x.is_zero()) }
}
pub fn reference(h: &[St], chals: &[Fr]) -> Ref {
    let mut r = Ref { nodes: vec![] };
    let mut k = 0;
    for s in h { if let St::Chal = s { k += 1; } let ch = if k == 0 { Fr::zero() } else { chals[k - 1] }; r.apply(s, ch); }
    r
}

#[derive(Clone, Copy, Default)]
pub struct Opt { pub max_steps: usize, pub max_nv: usize, pub grow_virtual: bool, pub reads: bool, pub max_deg: usize, pub commit_first: bool, pub max_terms: usize, pub max_base: usize }
/// A history under construction. `zero`: nodes that vanish on the hypercube whatever the challenges are.
pub struct Hist { pub steps: Vec<St>, pub zero: Vec<usize>, pub opt: Opt, r: Ref, dep: Vec<bool>, nchal: usize }
impl Hist {
    pub fn new(opt: Opt) -> Hist { Hist { steps: vec![], zero: vec![], opt, r: Ref { nodes: vec![] }, dep: vec![], nchal: 0 } }
    pub fn len(&self) -> usize { self.r.nodes.len() }
    pub fn nv(&self, i: usize) -> usize { self.r.nodes[i].nv }
    pub fn deg(&self, i: usize) -> usize { self.r.nodes[i].deg }
    pub fn cube_only(&self, i: usize) -> bool { self.r.nodes[i].cube_only }
    pub fn push(&mut self, s: St) -> usize {
        if let St::Chal = s { self.nchal += 1; }
        let dep = match &s { St::AddC(_) | St::MulC(_) => true, St::Add(a, b) | St::Sub(a, b) | St::Mul(a, b) => self.dep[*a] || self.dep[*b], St::AddS(a, _) | St::MulS(a, _) | St::Front(a, _) | St::Back(a, _) => self.dep[*a], _ => false };
        let z = |a: &usize| self.zero.contains(a);
        let zero = match &s { St::Add(a, b) => z(a) && z(b), St::Sub(a, b) => a == b || z(a) && z(b), St::Mul(a, b) => z(a) || z(b), St::MulS(a, _) | St::MulC(a) | St::Front(a, _) | St::Back(a, _) => z(a), _ => false };
        if s.node() {
            // challenge values are unknown here; tables of dependent nodes are placeholders
            self.r.apply(&s, Fr::from(7919u64));
            self.dep.push(dep);
            let i = self.len() - 1;
            if zero || (!dep && self.r.zero(i)) { self.zero.push(i); }
        }
        self.steps.push(s);
        self.len().wrapping_sub(1)
    }
    fn max_base(&self) -> usize { self.opt.max_base.max(4) }
    fn room(&self, deg: usize, terms: usize) -> bool { deg <= self.opt.max_deg.max(2) && terms <= self.opt.max_terms.max(24) }
    pub fn base(&mut self, g: &mut Gen, nv: usize) -> usize {
        let t = match g.weighted(&[5, 1, 1]) { 0 => g.fr_vec(1 << nv), 1 => if nv > 6 { use rand_chacha::rand_core::RngCore; let mut r = g.rng(); (0..1 << nv).map(|_| fr((r.next_u32() & 1) as i64)).collect() } else { (0..1 << nv).map(|_| fr(g.below(2) as i64)).collect() }, _ => { let k = g.size(0, (1 << nv) - 1); (0..1usize << nv).map(|i| fr((i == k) as i64)).collect() } };
        let c = self.opt.commit_first && self.steps.iter().all(|s| !matches!(s, St::Commit(_)));
        self.push(if c || g.chance(3, 4) { St::Commit(t) } else { St::Track(t) })
    }
    /// in some long histories: first a few hundred small nodes, so that identifiers exceed one byte
    pub fn bulk(&mut self, g: &mut Gen) {
        if !g.long || !g.chance(1, 3) { return; }
        g.tag("hundreds-of-identifiers");
        let (n, rate) = (g.size(230, 290), g.below(8));
        let mut r = g.rng();
        use rand_chacha::rand_core::RngCore;
        for _ in 0..n {
            let x = fr((r.next_u32() % 5) as i64);
            if self.len() == 0 || (r.next_u32() % 16) as u64 <= rate { let t = vec![x, fr((r.next_u32() % 7) as i64)]; self.push(if self.len() == 0 || r.next_u32() % 2 == 0 { St::Commit(t) } else { St::Track(t) }); }
            else { let a = r.next_u32() as usize % self.len(); if self.room(1, self.r.nodes[a].terms + 1) { self.push(if r.next_u32() % 2 == 0 { St::AddS(a, x) } else { St::MulS(a, x) }); } }
        }
    }
    pub fn any(&self, g: &mut Gen) -> usize { g.size(0, self.len() - 1) }
    /// a node with the same number of variables as `a`
    pub fn mate(&self, g: &mut Gen, a: usize) -> usize { let c: Vec<usize> = (0..self.len()).filter(|i| self.nv(*i) == self.nv(a)).collect(); *g.pick(&c) }
    pub fn step(&mut self, g: &mut Gen) {
        if self.len() == 0 { let nv = g.size(1, self.opt.max_nv.min(self.max_base())); self.base(g, nv); return; }
        let a = if g.bool() { self.len() - 1 } else { self.any(g) };
        match g.weighted(&[3, 3, 3, 4, 2, 2, 2, 2, 2, 1, if self.opt.reads { 2 } else { 0 }]) {
            0 => { let nv = if g.chance(2, 3) { self.nv(a).min(self.max_base()) } else { g.size(1, self.opt.max_nv.min(self.max_base())) }; self.base(g, nv); }
            1 => { let b = self.mate(g, a); if self.room(1, self.r.nodes[a].terms + self.r.nodes[b].terms) { self.push(St::Add(a, b)); } }
            2 => { let b = self.mate(g, a); if self.room(1, self.r.nodes[a].terms + self.r.nodes[b].terms) { self.push(if g.bool() { St::Sub(a, b) } else { St::Sub(b, a) }); } }
            3 => { let b = self.mate(g, a); if self.room(self.deg(a) + self.deg(b), self.r.nodes[a].terms * self.r.nodes[b].terms) { self.push(if g.bool() { St::Mul(a, b) } else { St::Mul(b, a) }); } }
            4 => { let c = g.fr(); self.push(St::AddS(a, c)); }
            5 => { let c = g.fr(); self.push(St::MulS(a, c)); }
            6 => if self.nchal > 0 { let s = if g.bool() { St::AddC(a) } else { St::MulC(a) }; self.push(s); },
            7 => {
                let k = g.size(0, 2);
                if self.nv(a) + k <= self.opt.max_nv && (self.opt.grow_virtual || (self.deg(a) == 1 && !self.cube_only(a))) { let s = if g.bool() { St::Front(a, k) } else { St::Back(a, k) }; self.push(s); }
            }
            8 => if self.steps.iter().any(|s| matches!(s, St::Commit(_) | St::Append(_))) { self.push(St::Chal); },
            9 => { let x = g.fr(); self.push(St::Append(x)); }
            _ => { self.push(St::Read(a)); }
        }
    }
    /// steps ending in a node that vanishes on the hypercube
    pub fn zero_node(&mut self, g: &mut Gen) -> usize {
        if !self.zero.is_empty() && g.chance(1, 4) { return *g.pick(&self.zero.clone()); }
        let a = if self.len() > 0 { self.any(g) } else { let nv = g.size(1, 3); self.base(g, nv) };
        let small: Vec<usize> = (0..self.len()).filter(|i| self.r.nodes[*i].terms <= 4 && self.deg(*i) <= 2).collect();
        let a = if self.r.nodes[a].terms > 12 || self.deg(a) > 3 { *small.first().unwrap_or(&a) } else { a };
        let nv = self.nv(a);
        let n = 1usize << nv;
        let z = match g.below(7) {
            0 => self.push(St::Sub(a, a)),
            1 => { // boolean column
                let t: Vec<Fr> = (0..n).map(|_| fr(g.below(2) as i64)).collect();
                let s = self.push(St::Commit(t));
                let m = self.push(St::MulS(s, -Fr::one()));
                let u = self.push(St::AddS(m, Fr::one()));
                self.push(St::Mul(s, u))
            }
            2 => { // product against its materialization
                let (t, u) = (g.fr_vec(n), g.fr_vec(n));
                let w = t.iter().zip(&u).map(|(x, y)| *x * y).collect();
                let (x, y) = (self.push(St::Commit(t)), self.push(St::Commit(u)));
                let z = self.push(if g.bool() { St::Commit(w) } else { St::Track(w) });
                let m = self.push(St::Mul(x, y));
                self.push(St::Sub(m, z))
            }
            3 => { // commuted sum
                let b = { let c: Vec<usize> = (0..self.len()).filter(|i| self.nv(*i) == nv && self.r.nodes[*i].terms <= 8).collect(); if c.is_empty() { a } else { *g.pick(&c) } };
                let (x, y) = (self.push(St::Add(a, b)), self.push(St::Add(b, a)));
                self.push(St::Sub(x, y))
            }
            4 => { // disjoint supports
                let m: Vec<bool> = (0..n).map(|_| g.bool()).collect();
                let (t, u) = (g.fr_vec(n), g.fr_vec(n));
                let t = (0..n).map(|i| if m[i] { t[i] } else { Fr::zero() }).collect();
                let u = (0..n).map(|i| if m[i] { Fr::zero() } else { u[i] }).collect();
                let (x, y) = (self.push(St::Commit(t)), self.push(St::Track(u)));
                self.push(St::Mul(x, y))
            }
            5 => self.push(St::MulS(a, Fr::zero())),
            _ => { // materialized copy of a node (when its values are known), or a zero column
                if !self.dep[a] { let t = self.r.nodes[a].tab.clone(); let b = self.push(St::Commit(t)); self.push(if g.bool() { St::Sub(a, b) } else { St::Sub(b, a) }) } else { self.push(St::Commit(vec![Fr::zero(); n])) }
            }
        };
        if !self.zero.contains(&z) { self.zero.push(z); }
        if g.chance(1, 5) { let b = self.mate(g, z); if self.room(self.deg(z) + self.deg(b), self.r.nodes[z].terms * self.r.nodes[b].terms) { return self.push(St::Mul(z, b)); } }
        z
    }
    pub fn show(&self) -> String { self.steps.iter().map(|s| s.show()).collect::<Vec<_>>().join("; ") }
}

/// node to claim about: bounded size
pub fn claimable(h: &Hist, g: &mut Gen) -> usize { let c: Vec<usize> = (0..h.len()).filter(|i| h.deg(*i) <= 5).collect(); *g.pick(&c) }

pub struct PRun<P: TestPcs> { pub pt: PT<P>, pub polys: Vec<TP<P>>, pub chals: Vec<Fr> }
pub fn prover_step<P: TestPcs>(r: &mut PRun<P>, s: &St) -> Res<()> {
    let last = r.chals.last().copied().unwrap_or(Fr::zero());
    let p = &r.polys;
    let n = match s {
        St::Commit(t) => r.pt.track_and_commit_poly(dmle(t)).map_err(PolyIOPErrors::from)?,
        St::Track(t) => r.pt.track_mat_poly(dmle(t)),
        St::Add(a, b) => p[*a].add_poly(&p[*b]), St::Sub(a, b) => p[*a].sub_poly(&p[*b]), St::Mul(a, b) => p[*a].mul_poly(&p[*b]),
        St::AddS(a, c) => p[*a].add_scalar(*c), St::MulS(a, c) => p[*a].mul_scalar(*c), St::AddC(a) => p[*a].add_scalar(last), St::MulC(a) => p[*a].mul_scalar(last),
        St::Front(a, k) => p[*a].increase_nv_front(*k), St::Back(a, k) => p[*a].increase_nv_back(*k),
        St::Chal => { let c = r.pt.get_and_append_challenge(b"zkv").map_err(PolyIOPErrors::from)?; r.chals.push(c); return Ok(()); }
        St::Append(x) => { r.pt.append_serializable_element(b"zkv", x).map_err(PolyIOPErrors::from)?; return Ok(()); }
        St::Sum(a, _) => { let id = p[*a].id; let s: Fr = p[*a].evaluations().iter().sum(); r.pt.add_sumcheck_claim(id, s); return Ok(()); }
        St::Zero(a) => { let id = p[*a].id; r.pt.add_zerocheck_claim(id); return Ok(()); }
        St::Read(a) => { let _ = p[*a].evaluations(); let _ = p[*a].to_arithmatic_virtual_poly(); let _ = p[*a].evaluate(&vec![Fr::from(3u64); p[*a].num_vars()]); return Ok(()); }
    };
    r.polys.push(n);
    Ok(())
}
pub fn new_prover<P: TestPcs>() -> PRun<P> { PRun { pt: PT::<P>::new_from_pcs_params(P::params().0), polys: vec![], chals: vec![] } }
pub fn prover<P: TestPcs>(h: &[St]) -> Res<PRun<P>> { let mut r = new_prover::<P>(); for s in h { prover_step(&mut r, s)?; } Ok(r) }

pub struct VRun<P: TestPcs> { pub vt: VT<P>, pub comms: Vec<TC<P>>, pub chals: Vec<Fr>, pub sums: std::collections::VecDeque<Fr> }
pub fn verifier_step<P: TestPcs>(r: &mut VRun<P>, s: &St) -> Res<()> {
    let last = r.chals.last().copied().unwrap_or(Fr::zero());
    let c = &r.comms;
    let n = match s {
        St::Commit(_) => { let id = r.vt.get_next_id(); r.vt.transfer_prover_comm(id) }
        St::Track(t) => { let t = t.clone(); r.vt.track_virtual_comm(Box::new(move |p: &[Fr]| if p.len() == log2(t.len()) { Ok(def_eval(&t, p)) } else { Err(PolyIOPErrors::InvalidParameters("length".into())) })) }
        St::Add(a, b) => c[*a].add_comms(&c[*b]), St::Sub(a, b) => c[*a].sub_comms(&c[*b]), St::Mul(a, b) => c[*a].mul_comms(&c[*b]),
        St::AddS(a, x) => c[*a].add_scalar(*x), St::MulS(a, x) => c[*a].mul_scalar(*x), St::AddC(a) => c[*a].add_scalar(last), St::MulC(a) => c[*a].mul_scalar(last),
        St::Front(a, k) => c[*a].increase_nv_front(*k), St::Back(a, k) => c[*a].increase_nv_back(*k),
        St::Chal => { let x = r.vt.get_and_append_challenge(b"zkv").map_err(PolyIOPErrors::from)?; r.chals.push(x); return Ok(()); }
        St::Append(x) => { r.vt.append_serializable_element(b"zkv", x).map_err(PolyIOPErrors::from)?; return Ok(()); }
        St::Sum(a, from_proof) => { let id = c[*a].id; let own = r.sums.pop_front().expect("sum"); let s = if *from_proof { r.vt.get_prover_claimed_sum(id) } else { own }; r.vt.add_sumcheck_claim(id, s); return Ok(()); }
        St::Zero(a) => { let id = c[*a].id; r.vt.add_zerocheck_claim(id); return Ok(()); }
        St::Read(_) => return Ok(()),
    };
    r.comms.push(n);
    Ok(())
}
pub fn new_verifier<P: TestPcs>(proof: CompiledZKSQLProof<E, P>, sums: &[Fr]) -> VRun<P> {
    let mut vt = new_vt::<P>(P::params().1);
    vt.set_compiled_proof(proof);
    VRun { vt, comms: vec![], chals: vec![], sums: sums.iter().copied().collect() }
}
pub fn verifier<P: TestPcs>(h: &[St], proof: CompiledZKSQLProof<E, P>, sums: &[Fr]) -> Res<VRun<P>> { let mut r = new_verifier(proof, sums); for s in h { verifier_step(&mut r, s)?; } Ok(r) }
/// runs the verifier's history and decides; errors and panics are refusals
pub fn decide<P: TestPcs>(h: &[St], proof: &CompiledZKSQLProof<E, P>, sums: &[Fr]) -> Result<(), String> {
    match guarded(|| verifier(h, proof.clone(), sums).and_then(|r| r.vt.verify_claims())) { Ok(Ok(())) => Ok(()), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(p) }
}
/// number of variables everything is brought to: the largest of all tracked tables
pub fn max_nv(r: &Ref) -> usize { r.nodes.iter().map(|n| n.nv).max().unwrap() }
/// sums of the claims after bringing every polynomial to `max_nv` variables
pub fn claim_sums(h: &[St], r: &Ref) -> Vec<Fr> {
    let m = max_nv(r);
    h.iter().filter_map(|s| if let St::Sum(a, _) = s { Some(r.sum(*a) * Fr::from(1u64 << (m - r.nodes[*a].nv))) } else { None }).collect()
}
pub fn nodes_fit(r: &Ref, nv: usize) -> bool { max_nv(r) <= nv }
