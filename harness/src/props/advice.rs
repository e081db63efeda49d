//! C25: the generators of prover advice.
use super::common::*;
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use crate::{huge, large, limbs};
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use std::collections::{BTreeMap, HashMap};
use zk_sql::tracker::prelude::*;
use zk_sql::zksql_poly_iop::verif_exports::*;

type M = MockPcs;
fn tracker() -> PT<M> { PT::<M>::new_from_pcs_params(M::params().0) }
/// the bag as committed columns, or as derived (virtual) ones with the same values
fn put(g: &mut Gen, pt: &mut PT<M>, b: &B) -> Bag<E, M> {
    let mut col = |g: &mut Gen, v: &[Fr]| match g.weighted(&[4, 1, 1]) {
        0 => pt.track_and_commit_poly(dmle(v)).unwrap(),
        1 => { let x = g.fr(); let w: Vec<Fr> = v.iter().map(|y| *y - x).collect(); pt.track_mat_poly(dmle(&w)).add_scalar(x) }
        _ => { let w = g.fr_vec(v.len()); let u: Vec<Fr> = v.iter().zip(&w).map(|(a, b)| *a + b).collect(); let (p, q) = (pt.track_mat_poly(dmle(&u)), pt.track_mat_poly(dmle(&w))); p.sub_poly(&q) }
    };
    let (p, s) = (col(g, &b.v), col(g, &b.s));
    Bag::new(p, s)
}
fn counts(b: &B) -> BTreeMap<Fr, u64> {
    let mut m = BTreeMap::new();
    for v in b.active() { *m.entry(v).or_insert(0) += 1; }
    m
}
fn pair(g: &mut Gen) -> (B, B) {
    let dom = *g.pick(&[3, 6, 12, 0]);
    let dom = g.dom(dom);
    let (na, nb) = (g.nv(1, 5), g.nv(1, 5));
    let (a, b) = (gen_bag(g, na, dom), gen_bag(g, nb, dom));
    g.note(format!("a={} b={}", a.show(), b.show()));
    (a, b)
}
fn msg<T: std::fmt::Debug>(what: &str, got: T, want: T) -> Fail { format!("{what}: {got:?} instead of {want:?}").into() }
fn ev(x: &B, nv: usize) -> Result<(), Fail> { if x.v.len() != 1 << nv || x.s.len() != 1 << nv { return Err(format!("size of {} is not 2^{nv}", x.show()).into()); } Ok(()) }
fn boolean(v: &[Fr]) -> bool { v.iter().all(|x| x.is_zero() || x.is_one()) }

fn counting(g: &mut Gen) -> R {
    let (a, _) = pair(g);
    let want: BTreeMap<Fr, u64> = counts(&a);
    let cmp = |m: HashMap<Fr, u64>, w: &str| -> Result<(), Fail> {
        let got: BTreeMap<Fr, u64> = m.into_iter().collect();
        if got != want { return Err(format!("{w}: {:?} instead of {:?}", got.iter().map(|x| (show(x.0), x.1)).collect::<Vec<_>>(), want.iter().map(|x| (show(x.0), x.1)).collect::<Vec<_>>()).into()); }
        Ok(())
    };
    cmp(vec_multiplicity_count::<E>(&a.v, &a.s), "vec_multiplicity_count")?;
    cmp(mle_multiplicity_count::<E>(&dmle(&a.v), &dmle(&a.s)), "mle_multiplicity_count")?;
    let mut pt = tracker();
    let bg = put(g, &mut pt, &a);
    cmp(bag_multiplicity_count(&bg), "bag_multiplicity_count")?;
    Ok(want.values().any(|c| *c > 1))
}
fn inclusion(g: &mut Gen) -> R {
    let (a, b) = pair(g);
    let mut pt = tracker();
    let (ba, bb) = (put(g, &mut pt, &a), put(g, &mut pt, &b));
    let ca = counts(&a);
    let mut hit = false;
    for (w, m) in [("from bag", calc_bag_inclusion_advice_from_bag(&ba, &bb)), ("from mle", calc_bag_inclusion_advice_from_mle::<E>(&dmle(&a.v), &dmle(&a.s), &dmle(&b.v), &dmle(&b.s)))] {
        if m.num_vars != b.nv() || m.evaluations.len() != b.len() { return Err(format!("{w}: wrong size").into()); }
        let m = m.evaluations;
        for i in 0..b.len() { if b.s[i].is_zero() && !m[i].is_zero() { return Err(format!("{w}: multiplicity on the inactive row {i}: {}", shows(&m)).into()); } }
        let mut tot: BTreeMap<Fr, Fr> = b.active().into_iter().map(|v| (v, Fr::zero())).collect();
        for i in 0..b.len() { if !b.s[i].is_zero() { *tot.get_mut(&b.v[i]).unwrap() += m[i]; } }
        for (v, x) in &tot {
            let want = Fr::from(*ca.get(v).unwrap_or(&0));
            if *x != want { return Err(format!("{w}: multiplicities {} give value {} the total {} instead of {}", shows(&m), show(v), show(x), show(&want)).into()); }
            hit |= want > Fr::one();
        }
    }
    Ok(hit)
}
fn support(g: &mut Gen) -> R {
    let (a, _) = pair(g);
    let mut pt = tracker();
    let ba = put(g, &mut pt, &a);
    let (s, sel, m) = calc_bag_supp_advice(&ba).map_err(|e| format!("{e:?}"))?;
    let x = B { v: s.evaluations, s: sel.evaluations };
    ev(&x, a.nv())?;
    let want = counts(&a);
    if !boolean(&x.s) { return Err(format!("selector {}", shows(&x.s)).into()); }
    if x.active() != want.keys().copied().collect::<Vec<_>>() { return Err(format!("support {} is not the sorted values", x.show()).into()); }
    let mut seen = false;
    for i in 0..x.len() {
        let w = if x.s[i].is_zero() { Fr::zero() } else { Fr::from(want[&x.v[i]]) };
        if m.evaluations[i] != w { return Err(format!("support {} with multiplicities {}", x.show(), shows(&m.evaluations)).into()); }
        // padding precedes the values, so that the whole column ascends
        seen |= x.s[i].is_one();
        if x.s[i].is_zero() && (!x.v[i].is_zero() || seen) { return Err(format!("padding of the support {}", x.show()).into()); }
    }
    Ok(want.values().any(|c| *c > 1))
}
fn disjoint(g: &mut Gen) -> R {
    let (a, b) = pair(g);
    let mut pt = tracker();
    let (ba, bb) = (put(g, &mut pt, &a), put(g, &mut pt, &b));
    let (c, sel, ma, mb) = calc_bag_disjoint_advice(&ba, &bb).map_err(|e| format!("{e:?}"))?;
    let (ca, cb) = (counts(&a), counts(&b));
    let mut all: Vec<Fr> = ca.keys().chain(cb.keys()).copied().collect();
    all.sort();
    all.dedup();
    let x = B { v: c.evaluations, s: sel.evaluations };
    if x.v.len() < all.len() || x.v.len() != x.s.len() || ma.evaluations.len() != x.v.len() || mb.evaluations.len() != x.v.len() { return Err("sizes of the merged bag differ".into()); }
    if !boolean(&x.s) || x.active() != all { return Err(format!("merged bag {} is not the sorted values of both", x.show()).into()); }
    let mut seen = false;
    for i in 0..x.len() {
        let z = x.s[i].is_zero();
        let w = |m: &BTreeMap<Fr, u64>| if z { Fr::zero() } else { Fr::from(*m.get(&x.v[i]).unwrap_or(&0)) };
        if ma.evaluations[i] != w(&ca) || mb.evaluations[i] != w(&cb) { return Err(format!("merged bag {} with multiplicities {} and {}", x.show(), shows(&ma.evaluations), shows(&mb.evaluations)).into()); }
        seen |= !z;
        if z && (!x.v[i].is_zero() || seen) { return Err(format!("padding of the merged bag {}", x.show()).into()); }
    }
    Ok(!ca.is_empty() && !cb.is_empty())
}
fn of(b: &Bag<E, M>) -> B { B { v: b.poly.evaluations(), s: b.selector.evaluations() } }
fn split(g: &mut Gen) -> R {
    let (a, b) = pair(g);
    let mut pt = tracker();
    let (ba, bb) = (put(g, &mut pt, &a), put(g, &mut pt, &b));
    let (l, ma, mb, r) = bag_lmr_split(&mut pt, &ba, &bb).map_err(|e| format!("{e:?}"))?;
    let (l, ma, mb, r) = (of(&l), of(&ma), of(&mb), of(&r));
    ev(&l, a.nv())?; ev(&ma, a.nv())?; ev(&mb, b.nv())?; ev(&r, b.nv())?;
    let (sa, sb) = (a.set(), b.set());
    let part = |x: &B, keep: &dyn Fn(&Fr) -> bool| { let mut v: Vec<Fr> = x.active().into_iter().filter(|v| keep(v)).collect(); v.sort(); v };
    for (n, x, want) in [("left", &l, part(&a, &|v| !sb.contains(v))), ("middle of the first", &ma, part(&a, &|v| sb.contains(v))), ("middle of the second", &mb, part(&b, &|v| sa.contains(v))), ("right", &r, part(&b, &|v| !sa.contains(v)))] {
        let mut got = x.active();
        got.sort();
        if !boolean(&x.s) || got != want { return Err(format!("{n} part {} instead of {}", x.show(), shows(&want)).into()); }
        if x.v.iter().zip(&x.s).any(|(v, s)| s.is_zero() && !v.is_zero()) { return Err(format!("{n} part {} has content in its padding", x.show()).into()); }
    }
    // sets
    let (mut a1, mut b1) = (a.clone(), b.clone());
    for x in [&mut a1, &mut b1] { let mut seen = std::collections::BTreeSet::new(); for i in 0..x.len() { if x.s[i].is_one() && !seen.insert(x.v[i]) { x.s[i] = Fr::zero(); } } }
    let (xa, xb) = (put(g, &mut pt, &a1), put(g, &mut pt, &b1));
    let (l1, m1, r1) = set_lmr_split(&mut pt, &xa, &xb).map_err(|e| format!("{e:?}"))?;
    let (l1, m1, r1) = (of(&l1), of(&m1), of(&r1));
    let uniq = |p: Vec<Fr>| { let mut p = p; p.dedup(); p };
    ev(&l1, a.nv())?; ev(&r1, b.nv())?; ev(&m1, a.nv().min(b.nv()))?;
    for (n, x, want) in [("left", &l1, uniq(part(&a, &|v| !sb.contains(v)))), ("middle", &m1, uniq(part(&a, &|v| sb.contains(v)))), ("right", &r1, uniq(part(&b, &|v| !sa.contains(v))))] {
        let mut got = x.active();
        got.sort();
        if !boolean(&x.s) || got != want { return Err(format!("set {n} part {} instead of {}", x.show(), shows(&want)).into()); }
    }
    Ok(sa.intersection(&sb).next().is_some())
}
fn mult_split(g: &mut Gen) -> R {
    let (a, b) = pair(g);
    let mut pt = tracker();
    let (ba, bb) = (put(g, &mut pt, &a), put(g, &mut pt, &b));
    let (l, m, r, lm, mam, mbm, rm) = bag_lmr_multiplicity_split(&mut pt, &ba, &bb).map_err(|e| format!("{e:?}"))?;
    let (ca, cb) = (counts(&a), counts(&b));
    let mut hit = false;
    // distinct values of each part in ascending order, with their occurrences on the side(s) they come from
    for (n, x, nv, muls, keep) in [("left", of(&l), a.nv(), vec![(&lm, &ca)], (true, false)), ("middle", of(&m), a.nv().max(b.nv()), vec![(&mam, &ca), (&mbm, &cb)], (true, true)), ("right", of(&r), b.nv(), vec![(&rm, &cb)], (false, true))] {
        ev(&x, nv)?;
        let want: Vec<Fr> = ca.keys().chain(cb.keys()).copied().collect::<std::collections::BTreeSet<_>>().into_iter().filter(|v| (ca.contains_key(v), cb.contains_key(v)) == keep).collect();
        let mut got = x.active();
        got.sort();
        if !boolean(&x.s) || got != want { return Err(format!("{n} part {} instead of {}", x.show(), shows(&want)).into()); }
        for (p, c) in muls {
            let e = p.evaluations();
            if p.num_vars != nv || e.len() != x.len() { return Err(format!("multiplicities of the {n} part have a wrong size").into()); }
            for i in 0..e.len() {
                let w = if x.s[i].is_zero() { Fr::zero() } else { Fr::from(c[&x.v[i]]) };
                if e[i] != w { return Err(format!("{n} part {} with multiplicities {}", x.show(), shows(&e)).into()); }
                hit |= w > Fr::one();
            }
        }
    }
    Ok(hit)
}
fn join_sel(g: &mut Gen) -> R {
    let (a, b) = pair(g);
    let (l, r) = calc_join_reduction_lr_sel_advice::<E>(&dmle(&a.v), &dmle(&a.s), &dmle(&b.v), &dmle(&b.s));
    let mut mixed = (false, false);
    for (n, x, got, other) in [("left", &a, l, b.set()), ("right", &b, r, a.set())] {
        if got.num_vars != x.nv() || got.evaluations.len() != x.len() || !boolean(&got.evaluations) { return Err(format!("{n} selector {}", shows(&got.evaluations)).into()); }
        for i in 0..x.len() {
            if x.s[i].is_zero() { continue; }
            let want = fr(!other.contains(&x.v[i]) as i64);
            if got.evaluations[i] != want { return Err(format!("{n} selector {} at row {i}", shows(&got.evaluations)).into()); }
            if want.is_zero() { mixed.0 = true } else { mixed.1 = true }
        }
    }
    Ok(mixed.0 && mixed.1)
}
fn index_map(g: &mut Gen) -> R {
    let dom = *g.pick(&[4, 16, 40]);
    let dom = g.dom(dom);
    let (na, nb, ka, kb) = (g.nv(1, 5), g.nv(1, 5), g.size(1, g.lor(3, 12)), g.size(1, g.lor(3, 12)));
    let (ja, jb) = (g.size(0, ka - 1), g.size(0, kb - 1));
    let n = 1usize << na;
    // unique active keys on the first side
    let keys = subset(g, dom, n);
    let ta = layout(g, &keys, na, dom, true);
    let mut tb = gen_bag(g, nb, dom);
    let missing_ok = g.chance(1, 3);
    let have = ta.set();
    if !missing_ok { let hv: Vec<Fr> = have.iter().copied().collect(); for i in 0..tb.len() { if tb.s[i].is_one() && !have.contains(&tb.v[i]) { if hv.is_empty() { tb.s[i] = Fr::zero() } else { tb.v[i] = *g.pick(&hv) } } } }
    g.note(format!("a keys={} (column {ja} of {ka}) b keys={} (column {jb} of {kb})", ta.show(), tb.show()));
    let mut pt = tracker();
    let cols = |g: &mut Gen, pt: &mut PT<M>, k: usize, j: usize, x: &B| -> (Table<E, M>, Vec<Vec<Fr>>) {
        let vals: Vec<Vec<Fr>> = (0..k).map(|i| if i == j { x.v.clone() } else { (0..x.len()).map(|_| gen_val(g, dom)).collect() }).collect();
        let c: Vec<TP<M>> = vals.iter().map(|v| pt.track_and_commit_poly(dmle(v)).unwrap()).collect();
        (Table::new(c, pt.track_and_commit_poly(dmle(&x.s)).unwrap()), vals)
    };
    let (a, va) = cols(g, &mut pt, ka, ja, &ta);
    let (b, _) = cols(g, &mut pt, kb, jb, &tb);
    let bad = tb.active().iter().any(|v| !have.contains(v));
    let idx = match calc_final_join_one_to_many_index_transform(&a, &b, ja, jb) {
        Err(_) if bad => { g.tag("missing-key"); return Ok(true); }
        Err(e) => return Err(format!("refused although every active key matches: {e:?}").into()),
        Ok(_) if bad => return Err("an unmatched active key is not reported".into()),
        Ok(i) => i,
    };
    if idx.len() != tb.len() { return Err(msg("number of indices", idx.len(), tb.len())); }
    for i in 0..tb.len() {
        if idx[i] >= ta.len() { return Err(format!("index {} of row {i} is out of range", idx[i]).into()); }
        if tb.s[i].is_one() && (ta.s[idx[i]].is_zero() || ta.v[idx[i]] != tb.v[i]) { return Err(format!("row {i} is sent to row {}", idx[i]).into()); }
    }
    // the transformed columns
    for (c, v) in a.col_vals.iter().zip(&va) {
        let m = calc_index_transformed_bag(&idx, c, &b.selector).map_err(|e| format!("{e:?}"))?;
        let want: Vec<Fr> = (0..tb.len()).map(|i| if tb.s[i].is_one() { v[idx[i]] } else { Fr::zero() }).collect();
        if m.num_vars != tb.nv() || m.evaluations != want { return Err(format!("transformed column {} instead of {}", shows(&m.evaluations), shows(&want)).into()); }
    }
    Ok(tb.active().len() > 1)
}
fn transformed(g: &mut Gen) -> R {
    let (n, m) = (g.nv(1, 4), g.nv(1, 5));
    let (v, s) = (g.fr_vec(1 << n), gen_sel(g, 1 << m));
    let idx: Vec<usize> = (0..1 << m).map(|_| g.size(0, (1 << n) - 1)).collect();
    g.note(format!("column={} rows={idx:?} active={}", shows(&v), shows(&s)));
    let mut pt = tracker();
    let (p, a) = (pt.track_and_commit_poly(dmle(&v)).unwrap(), pt.track_and_commit_poly(dmle(&s)).unwrap());
    let got = calc_index_transformed_bag(&idx, &p, &a).map_err(|e| format!("{e:?}"))?;
    let want: Vec<Fr> = (0..1 << m).map(|i| if s[i].is_one() { v[idx[i]] } else { Fr::zero() }).collect();
    if got.num_vars != m || got.evaluations != want { return Err(format!("{} instead of {}", shows(&got.evaluations), shows(&want)).into()); }
    Ok(s.iter().any(|x| x.is_one()))
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", rule: "bags and tables of 2-32 rows with repeated small values or arbitrary field elements, columns committed or derived; non-trivial: repeated values, shared values, or several active rows, as the generator needs",
        families: vec![fam("counting", 300000, 36000000, counting).dbg(5), fam("inclusion", 300000, 36000000, inclusion).dbg(5), fam("support", 300000, 36000000, support).dbg(5), fam("disjoint", 225000, 30000000, disjoint).dbg(5),
            fam("split", 150000, 18000000, split).dbg(5), fam("multiplicity-split", 150000, 18000000, mult_split).dbg(5), fam("join-selectors", 300000, 36000000, join_sel).dbg(5), fam("index-map", 225000, 30000000, index_map).dbg(5), fam("transformed", 300000, 30000000, transformed).dbg(5),
            fam("counting-limbs", 30000, 3000000, limbs!(counting)).dbg(5), fam("inclusion-limbs", 30000, 3000000, limbs!(inclusion)).dbg(5), fam("support-limbs", 30000, 3000000, limbs!(support)).dbg(5), fam("disjoint-limbs", 20000, 2000000, limbs!(disjoint)).dbg(5), fam("split-limbs", 15000, 1500000, limbs!(split)).dbg(5), fam("multiplicity-split-limbs", 15000, 1500000, limbs!(mult_split)).dbg(5), fam("join-selectors-limbs", 30000, 3000000, limbs!(join_sel)).dbg(5), fam("index-map-limbs", 20000, 2000000, limbs!(index_map)).dbg(5),
            fam("counting-large", 24000, 2400000, large!(counting)), fam("inclusion-large", 24000, 2400000, large!(inclusion)), fam("support-large", 24000, 2400000, large!(support)), fam("disjoint-large", 24000, 2400000, large!(disjoint)), fam("split-large", 12000, 1200000, large!(split)), fam("multiplicity-split-large", 12000, 1200000, large!(mult_split)), fam("join-selectors-large", 24000, 2400000, large!(join_sel)), fam("index-map-large", 12000, 1200000, large!(index_map)), fam("transformed-large", 12000, 1200000, large!(transformed)), fam("counting-huge", 24, 2000, huge!(counting)), fam("inclusion-huge", 24, 2000, huge!(inclusion)), fam("support-huge", 24, 2000, huge!(support)), fam("disjoint-huge", 24, 2000, huge!(disjoint)), fam("split-huge", 24, 2000, huge!(split)), fam("multiplicity-split-huge", 24, 2000, huge!(mult_split))],
        assumptions: vec!["selectors are 0 or 1"] }]
}
