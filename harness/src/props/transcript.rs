//! C08: Fiat-Shamir challenges are a function of the whole transcript.
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::props::hist::*;
use crate::props::sumcheck::T;
use crate::runner::*;
use crate::with_scheme;
use ark_bls12_381::{Fr, G1Affine};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, One, PrimeField};
use ark_serialize::CanonicalSerialize;
use std::collections::HashSet;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::verif_hook::CompiledZKSQLProof;

const LABELS: [&[u8]; 8] = [b"a", b"ab", b"b", b"", b"comm", b"Internal round", b"a ", b"prover msg"];
#[derive(Clone, Debug, PartialEq)]
enum Op { Msg(usize, Vec<u8>), Field(usize, Fr), Point(usize, G1Affine), Vec(usize, Vec<Fr>), Chal(usize), ChalVec(usize, usize) }
impl Op {
    fn label(&self) -> usize { match self { Op::Msg(l, _) | Op::Field(l, _) | Op::Point(l, _) | Op::Vec(l, _) | Op::Chal(l) | Op::ChalVec(l, _) => *l } }
    fn relabel(&self, n: usize) -> Op { let mut o = self.clone(); match &mut o { Op::Msg(l, _) | Op::Field(l, _) | Op::Point(l, _) | Op::Vec(l, _) | Op::Chal(l) | Op::ChalVec(l, _) => *l = n } o }
    fn is_chal(&self) -> bool { matches!(self, Op::Chal(_) | Op::ChalVec(..)) }
    /// what the step contributes: the label and the bytes, or the number of challenges
    fn key(&self) -> (usize, usize, Vec<u8>) {
        let ser = |x: &dyn Fn(&mut Vec<u8>)| { let mut b = vec![]; x(&mut b); b };
        match self {
            Op::Msg(l, m) => (*l, 0, m.clone()), Op::Field(l, x) => (*l, 0, ser(&|b| x.serialize_compressed(b).unwrap())),
            Op::Point(l, x) => (*l, 0, ser(&|b| x.serialize_compressed(b).unwrap())), Op::Vec(l, x) => (*l, 0, ser(&|b| x.serialize_compressed(b).unwrap())),
            Op::Chal(l) => (*l, 1, vec![]), Op::ChalVec(l, n) => (*l, *n, vec![]),
        }
    }
    fn show(&self) -> String { match self { Op::Msg(l, m) => format!("msg({l},{:?}{})", &m[..m.len().min(64)], if m.len() > 64 { format!(" of {}", m.len()) } else { String::new() }), Op::Field(l, x) => format!("field({l},{})", show(x)), Op::Point(l, _) => format!("point({l})"), Op::Vec(l, v) => format!("vec({l},{} of {})", shows(&v[..v.len().min(8)]), v.len()), Op::Chal(l) => format!("CH({l})"), Op::ChalVec(l, n) => format!("CH({l})x{n}") } }
}
fn bytes(g: &mut Gen) -> Vec<u8> { let n = *g.pick(&[0usize, 1, 2, 3, 7, 31, 32, 33, 64, 200]);
    if g.long && g.chance(1, 3) { use rand_chacha::rand_core::RngCore; let n = *g.pick(&[165usize, 166, 167, 255, 256, 257, 1000, 65535, 65536, 65537, 70000]); let mut r = g.rng(); let mut v = vec![0; n]; r.fill_bytes(&mut v); return v; }
    (0..n).map(|_| if g.chance(1, 3) { 0 } else { g.below(256) as u8 }).collect() }
fn op(g: &mut Gen, chal: bool) -> Op {
    let l = g.size(0, LABELS.len() - 1);
    match g.weighted(&[4, 3, 1, 2, if chal { 3 } else { 0 }, if chal { 1 } else { 0 }]) {
        0 => Op::Msg(l, bytes(g)),
        1 => Op::Field(l, g.fr()),
        2 => Op::Point(l, (G1Affine::generator() * g.fr()).into_affine()),
        3 => { let n = if g.long { *g.pick(&[0usize, 5, 64, 300, 2100]) } else { g.size(0, 3) }; Op::Vec(l, g.fr_vec(n)) }
        4 => Op::Chal(l),
        _ => { let n = g.size(1, g.lor(3, 70)); Op::ChalVec(l, n) }
    }
}
fn ops(g: &mut Gen) -> (usize, Vec<Op>) {
    let n = g.size(1, g.lor(8, 80));
    let mut v = vec![op(g, false)];
    for _ in 1..n { v.push(op(g, true)); }
    v.push(Op::Chal(0));
    (g.size(0, LABELS.len() - 1), v)
}
fn apply(t: &mut T, o: &Op) -> Result<Vec<Fr>, String> {
    let l = LABELS[o.label()];
    let e = |x: zk_sql::transcript::TranscriptError| format!("{x:?}");
    match o {
        Op::Msg(_, m) => t.append_message(l, m).map_err(e)?, Op::Field(_, x) => t.append_field_element(l, x).map_err(e)?,
        Op::Point(_, x) => t.append_serializable_element(l, x).map_err(e)?, Op::Vec(_, x) => t.append_serializable_element(l, x).map_err(e)?,
        Op::Chal(_) => return Ok(vec![t.get_and_append_challenge(l).map_err(e)?]),
        Op::ChalVec(_, n) => { let v = t.get_and_append_challenge_vectors(l, *n).map_err(e)?; if v.len() != *n { return Err(format!("{} challenges instead of {n}", v.len())); } return Ok(v); }
    }
    Ok(vec![])
}
fn run(init: usize, v: &[Op]) -> Result<Vec<Vec<Fr>>, String> { let mut t = T::new(LABELS[init]); v.iter().map(|o| apply(&mut t, o)).collect() }
fn show_all(init: usize, v: &[Op]) -> String { format!("init {init}: {}", v.iter().map(|o| o.show()).collect::<Vec<_>>().join(" ")) }
fn disjoint(a: &[Fr], b: &[Fr]) -> bool { let s: HashSet<&Fr> = a.iter().collect(); b.iter().all(|x| !s.contains(x)) }

/// One edit; the challenges before it agree and all later ones differ.
fn edits(g: &mut Gen) -> R {
    let (init, v) = ops(g);
    let (mut init2, mut w) = (init, v.clone());
    let last = v.len() - 1;
    let i = g.size(0, last);
    // number of leading challenges the two runs share
    let upto = |k: usize| v[..k].iter().map(|o| match o { Op::Chal(_) => 1, Op::ChalVec(_, n) => *n, _ => 0 }).sum::<usize>();
    let mut shared = upto(i);
    let other_label = |g: &mut Gen, l: usize| (l + g.size(1, LABELS.len() - 1)) % LABELS.len();
    let what = match g.below(11) {
        0 => { init2 = other_label(g, init); shared = 0; "initial label" }
        1 => { let l = other_label(g, v[i].label()); w[i] = v[i].relabel(l); if v[i].is_chal() { "challenge label" } else { "message label" } }
        2 | 3 => {
            w[i] = match &v[i] {
                Op::Msg(l, m) => {
                    let mut m = m.clone();
                    match g.below(4) {
                        0 => m.push(0),
                        1 => { if m.is_empty() { return Ok(false); } m.pop(); }
                        2 => m.insert(0, 0),
                        _ => { if m.is_empty() { return Ok(false); } let k = g.size(0, m.len() - 1); m[k] ^= 1 << g.below(8); }
                    }
                    Op::Msg(*l, m)
                }
                Op::Field(l, x) => Op::Field(*l, *x + g.fr_nz()),
                Op::Point(l, x) => { if x.is_zero() { return Ok(false); } Op::Point(*l, if g.bool() { -*x } else { (*x + G1Affine::generator()).into_affine() }) }
                Op::Vec(l, x) => { let mut x = x.clone(); match g.below(3) { 0 => x.push(g.fr()), 1 => { x.pop(); } _ => if !x.is_empty() { let k = g.size(0, x.len() - 1); x[k] += Fr::one(); } } Op::Vec(*l, x) }
                Op::ChalVec(l, n) => { shared += n; Op::ChalVec(*l, n + 1) }
                Op::Chal(_) => return Ok(false),
            };
            "content"
        }
        4 => { if i == last { return Ok(false); } w.swap(i, i + 1); "order" }
        5 => { if i == last || i == 0 && v[1].is_chal() { return Ok(false); } w.remove(i); "left out" }
        6 => { let x = op(g, i > 0); w.insert(i, x); "added" }
        7 => { w.insert(i, v[i].clone()); if let Some(_) = Some(0).filter(|_| v[i].is_chal()) { shared = upto(i + 1); } "repeated" }
        8 => { // one message or two
            if let Op::Msg(l, m) = &v[i] { let k = g.size(0, m.len()); w[i] = Op::Msg(*l, m[..k].to_vec()); w.insert(i + 1, Op::Msg(*l, m[k..].to_vec())); } else { return Ok(false); }
            "message cut in two"
        }
        9 => { // bytes move between label and message
            w[i] = match &v[i] {
                Op::Msg(1, m) => { let mut x = b"b".to_vec(); x.extend(m); Op::Msg(0, x) }
                Op::Msg(0, m) if m.first() == Some(&b'b') => Op::Msg(1, m[1..].to_vec()),
                Op::Msg(l, m) => { let mut x = LABELS[*l].to_vec(); x.extend(m); Op::Msg(3, x) }
                _ => return Ok(false),
            };
            "bytes moved between label and message"
        }
        _ => { // a byte moves to the next message
            if i >= last { return Ok(false); }
            if let (Op::Msg(l, m), Op::Msg(k, n)) = (&v[i], &v[i + 1]) {
                if m.is_empty() { return Ok(false); }
                let (mut m, mut n) = (m.clone(), n.clone());
                n.insert(0, m.pop().unwrap());
                let (a, b) = (Op::Msg(*l, m), Op::Msg(*k, n));
                w[i] = a; w[i + 1] = b;
            } else { return Ok(false); }
            "byte moved to the next message"
        }
    };
    g.note(format!("{}; edit {what} at {i}: {}", show_all(init, &v), show_all(init2, &w)));
    let keys = |v: &[Op]| v.iter().flat_map(|o| { let k = o.key(); match o { Op::ChalVec(..) => vec![(k.0, 1, vec![]); k.1], _ => vec![k] } }).collect::<Vec<_>>();
    let (kv, kw) = (keys(&v), keys(&w));
    let same = init == init2 && kv == kw;
    if same { g.tag("same"); }
    // leading steps that are equal after all
    if init == init2 {
        let common = kv.iter().zip(&kw).take_while(|(a, b)| a == b).count();
        shared = kv[..common].iter().filter(|k| k.2.is_empty() && k.1 == 1).count();
    }
    if w[0].is_chal() { return match run(init2, &w) { Err(_) => Ok(true), Ok(_) => Err("a challenge from an empty transcript".into()) }; }
    let (a, b) = (run(init, &v)?.concat(), run(init2, &w)?.concat());
    if same { return if a == b { Ok(true) } else { Err("equal transcripts give different challenges".into()) }; }
    let shared = shared.min(a.len()).min(b.len());
    if a[..shared] != b[..shared] { return Err("challenges before the edit differ".into()); }
    if !disjoint(&a[shared..], &b[shared..]) { return Err(format!("a challenge after the edit ({what}) is unchanged").into()); }
    Ok(a.len() > shared)
}
/// Equal sequences, clones, repeats, requests on an empty transcript.
fn same(g: &mut Gen) -> R {
    let (init, v) = ops(g);
    g.note(show_all(init, &v));
    let cut = g.size(0, v.len());
    let mut e = T::new(LABELS[init]);
    for _ in 0..g.size(0, 2) {
        if e.get_and_append_challenge(LABELS[g.size(0, 7)]).is_ok() { return Err("a challenge from an empty transcript".into()); }
        let n = g.size(1, 3);
        if e.get_and_append_challenge_vectors(b"a", n).is_ok() { return Err("challenges from an empty transcript".into()); }
    }
    let plain = run(init, &v)?.concat();
    let mut got = vec![];
    let mut copies: Vec<(T, usize)> = vec![];
    for (i, o) in v.iter().enumerate() {
        if i == cut || g.chance(1, 4) { copies.push((e.clone(), i)); }
        // field elements and their bytes are the same message
        if let Op::Field(l, x) = o { if g.bool() { let mut b = vec![]; x.serialize_compressed(&mut b).unwrap(); e.append_serializable_element(LABELS[*l], x).map_err(|e| Fail::from(format!("{e:?}")))?; let _ = b; continue; } }
        if let Op::ChalVec(l, n) = o { if g.bool() { for _ in 0..*n { got.extend(apply(&mut e, &Op::Chal(*l))?); } continue; } }
        got.extend(apply(&mut e, o)?);
    }
    if got != plain { return Err("equal sequences give different challenges".into()); }
    for (mut c, i) in copies {
        let mut d = c.clone();
        let pre = run(init, &v[..i])?.concat();
        let rest: Vec<Fr> = v[i..].iter().map(|o| apply(&mut c, o)).collect::<Result<Vec<_>, _>>()?.concat();
        if [pre, rest].concat() != plain { return Err(format!("a clone taken before step {i} continues differently").into()); }
        let _ = apply(&mut d, &Op::Field(0, Fr::one()));
    }
    let set: HashSet<&Fr> = plain.iter().collect();
    if set.len() != plain.len() { return Err("a challenge is repeated".into()); }
    Ok(plain.len() > 1)
}
/// Every bit of a challenge varies.
fn spread(g: &mut Gen) -> R {
    let (init, v) = ops(g);
    g.note(show_all(init, &v));
    let mut t = T::new(LABELS[init]);
    for o in &v { apply(&mut t, o)?; }
    let mut c = vec![];
    for i in 0..128usize { if i % 3 == 0 { c.extend(apply(&mut t, &Op::ChalVec(1, 1))?); } else { c.extend(apply(&mut t, &Op::Chal(i % 8))?); } }
    for b in 0..Fr::MODULUS_BIT_SIZE as usize {
        let n = c.iter().filter(|x| x.into_bigint().get_bit(b)).count();
        if n == 0 || n == c.len() { return Err(format!("bit {b} is the same in {} challenges", c.len()).into()); }
    }
    if c.iter().collect::<HashSet<_>>().len() != c.len() { return Err("a challenge is repeated".into()); }
    Ok(true)
}

/// The trackers absorb every commitment and message on both sides, and so does a compiled proof.
fn trackers(g: &mut Gen) -> R {
    let sc = pick_scheme(g, 12);
    with_scheme!(sc, trackers_on, g)
}
fn trackers_on<P: TestPcs>(g: &mut Gen) -> R {
    let nv = g.size(1, 3);
    let n = g.size(1, 8);
    let mut h = vec![St::Commit(g.fr_vec(1 << nv))];
    for _ in 1..n { let s = match g.weighted(&[4, 2, 2, 2]) { 0 => St::Commit(g.fr_vec(1 << nv)), 1 => St::Append(g.fr()), 2 => St::Chal, _ => match g.weighted(&[2, 1, 1, 1, 1, 3, 3, 1]) {
        0 => St::Add(0, 0), 1 => St::Mul(0, 0), 2 => St::MulS(0, g.fr()), 3 => St::AddS(0, g.fr()), 4 => St::Front(0, 1), 5 => St::Sum(0, false), 6 => St::Zero(0), _ => St::Read(0) } }; h.push(s); }
    h.push(St::Chal);
    let mut w = h.clone();
    let i = g.size(0, h.len() - 2);
    let what = match (g.below(4), &mut w[i]) {
        (0, St::Commit(t)) | (1, St::Commit(t)) => { let k = g.size(0, t.len() - 1); t[k] += g.fr_nz(); "an entry of a committed column" }
        (0, St::Append(x)) | (1, St::Append(x)) => { *x += g.fr_nz(); "a message" }
        (2, _) => { if !absorbed(&h[i]) || i == 0 || format!("{:?}", h[i]) == format!("{:?}", h[i + 1]) && i + 1 == h.len() { return Ok(false); }
            // a later equal step would only move the edit
            w.remove(i); "a step left out" }
        (3, _) => { if !absorbed(&h[i]) || !absorbed(&h[i + 1]) || i == 0 || i + 2 == h.len() || format!("{:?}", h[i]) == format!("{:?}", h[i + 1]) { return Ok(false); } w.swap(i, i + 1); "two steps swapped" }
        _ => return Ok(false),
    };
    // a false zero claim is of no concern to the challenges, but the debug build refuses to compile it
    let claim = g.bool() && !h.iter().any(|s| matches!(s, St::Zero(_)));
    if claim { for x in [&mut h, &mut w] { x.push(St::Sum(0, false)); } }
    let showh = |h: &[St]| h.iter().map(|s| s.show()).collect::<Vec<_>>().join("; ");
    g.note(format!("{} | {what}: {}", showh(&h), showh(&w)));
    let real = |h: &[St]| h.iter().filter(|s| absorbed(s)).map(|s| format!("{s:?}")).collect::<Vec<_>>();
    let (a, b) = (real(&h), real(&w));
    let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    if common == a.len().min(b.len()) { return Ok(false); }
    let shared = a[..common].iter().filter(|s| s.as_str() == "Chal").count();
    let mut sides: Vec<[Vec<Fr>; 2]> = vec![];
    let mut points = vec![];
    for x in [&h, &w] {
        let mut p = prover::<P>(x).map_err(err)?;
        let mut pr = CompiledZKSQLProof::default();
        pr.comms = p.pt.clone_underlying_tracker().materialized_comms;
        let v = verifier::<P>(x, pr, &vec![Fr::one(); x.len()]).map_err(err)?;
        if p.chals != v.chals { return Err("the two sides draw different challenges".into()); }
        sides.push([p.chals.clone(), v.chals]);
        if claim { points.push(p.pt.compile_proof().map_err(err)?.sc_proof.point); }
    }
    for k in 0..2 {
        if sides[0][k][..shared] != sides[1][k][..shared] { return Err("challenges before the edit differ".into()); }
        if !disjoint(&sides[0][k][shared..], &sides[1][k][shared..]) { return Err(format!("{} tracker: a challenge ignores {what}", ["prover", "verifier"][k]).into()); }
    }
    if claim && !disjoint(&points[0], &points[1]) { return Err(format!("the point of the compiled proof ignores {what}").into()); }
    Ok(true)
}
/// a step that goes into the transcript
fn absorbed(s: &St) -> bool { matches!(s, St::Commit(_) | St::Append(_) | St::Chal) }
fn err(e: PolyIOPErrors) -> Fail { Fail::from(format!("{e:?}")) }

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C08", rule: "1-8 absorptions and requests under 8 labels; non-trivial: a challenge follows the edit (edits), several challenges are compared (same), all bits of 128 challenges are seen (spread), the edit touches something absorbed (trackers)",
        families: vec![fam("edits", 300000, 8000000, edits).dbg(5), fam("same", 100000, 3000000, same).dbg(5), fam("spread", 3000, 100000, spread).dbg(5), fam("trackers", 40000, 1200000, trackers).dbg(5), fam("edits-long", 600, 30000, crate::long!(edits)).dbg(5), fam("same-long", 400, 20000, crate::long!(same)).dbg(5)],
        assumptions: vec!["two challenges that should differ are equal by chance with probability 2^-250"] }]
}
