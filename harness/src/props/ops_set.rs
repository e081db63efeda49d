//! C18 and C19: set operators and join reduction.
use super::common::*;
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use crate::large;
use crate::forged;
use crate::with_scheme;
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use zk_sql::zksql_poly_iop::verif_exports::*;

fn dom(g: &Gen) -> u64 { g.or(16, 400) }
fn range(g: &Gen) -> B { range_col(g.or(4, 9) as usize) }

/// a set column: distinct active values, arbitrary inactive rows
fn set_col(g: &mut Gen, vals: &[Fr], extra: usize) -> B {
    let nv = min_nv(vals.len()) + g.size(0, extra);
    let mut v = vals.to_vec();
    g.shuffle(&mut v);
    let sh = g.bool();
    let d = dom(g);
    layout(g, &v, nv, d, sh)
}
/// two sets with every kind of overlap
fn two_sets(g: &mut Gen) -> (Vec<Fr>, Vec<Fr>) {
    let (d, max) = (dom(g), g.or(8, 300) as usize);
    let mut a = subset(g, d, max);
    let mut b = subset(g, d, max);
    match g.below(5) {
        0 => b.retain(|x| !a.contains(x)),
        1 => { b = a.clone(); let k = g.size(0, b.len()); b.truncate(k); if g.bool() { std::mem::swap(&mut a, &mut b); } }
        _ => {}
    }
    (a, b)
}
/// one edit of the active values of a claimed result: missing, extra, replaced, repeated
fn edit_vals(g: &mut Gen, v: &mut Vec<Fr>) {
    match g.below(4) {
        0 => if !v.is_empty() { let i = g.size(0, v.len() - 1); v.remove(i); },
        1 => v.push(Fr::from(g.below(dom(g)))),
        2 => if !v.is_empty() { let i = g.size(0, v.len() - 1); v[i] = Fr::from(g.below(dom(g))); },
        _ => if !v.is_empty() { let x = *g.pick(v); v.push(x); },
    }
    v.truncate(g.or(16, 512) as usize);
}
/// the merged list of two columns is strictly sorted with the steps of the range
fn merged_strict(l: &B, r: &B, range: &B) -> bool {
    let all = [l.active(), r.active()].concat();
    strict_sorted(&sorted_layout(&all, l.nv().max(r.nv()) + 1), &range.v)
}

// ---------------------------------------------------------------- C18
fn run_union<P: TestPcs>(a: &B, b: &B, u: &B, r: &B, seed: u64) -> Outcome {
    let n = [a.nv(), b.nv(), u.nv(), r.nv()];
    run_op::<P>(&[a.cols(), b.cols(), u.cols(), r.cols()].concat(), seed,
        |pt, c| SetUnionIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4), &bag(c, 6)),
        |vt, c| SetUnionIOP::<E, P>::verify(vt, &bagc(c, 0, n[0]), &bagc(c, 2, n[1]), &bagc(c, 4, n[2]), &bagc(c, 6, n[3])))
}
fn union_holds(a: &B, b: &B, u: &B, r: &B) -> bool {
    let w = add_w(&a.weights(), &b.weights());
    w.keys().copied().collect::<BTreeSet<_>>() == u.set() && strict_sorted(u, &r.v)
}
fn gen_union(g: &mut Gen) -> (B, B, B) {
    let (va, vb) = two_sets(g);
    let a = set_col(g, &va, 1);
    let b = set_col(g, &vb, 1);
    let mut u: Vec<Fr> = a.set().union(&b.set()).copied().collect();
    if g.chance(2, 5) { edit_vals(g, &mut u); }
    let nv = min_nv(u.len()) + g.size(0, 1);
    let mut u = sorted_layout(&u, nv);
    if g.chance(1, 8) { { let d = dom(g); perturb(g, &mut u, d) }; }
    (a, b, u)
}
fn c18_union(g: &mut Gen) -> R {
    let (a, b, u) = gen_union(g);
    let r = range(g);
    g.note(format!("a={} b={} union={}", a.show(), b.show(), u.show()));
    let want = union_holds(&a, &b, &u, &r);
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_union, &a, &b, &u, &r, 71);
    expect(g, &o, want, "set union")?;
    Ok(!a.set().is_empty() && !b.set().is_empty())
}
/// The prover forges the concatenated bag so that it fits a wrong union.
fn c18_union_forge(g: &mut Gen) -> R {
    let (a, b, u) = gen_union(g);
    let r = range(g);
    let truth = union_holds(&a, &b, &u, &r);
    let nv = a.nv().max(b.nv()) + 1;
    let mut fill = u.active();
    fill.truncate(1 << nv);
    let d = dom(g);
    let fake = layout(g, &fill, nv, d, true);
    let both = g.bool();
    g.note(format!("a={} b={} union={} forged sum={} both={both}", a.show(), b.show(), u.show(), fake.show()));
    let f = fake.clone();
    let hit = Arc::new(Mutex::new(false));
    let h = hit.clone();
    let o = dishonest(8, move |k, w| {
        let o = w.clone();
        let w = if w.len() != f.len() { w } else if k == 0 { f.v.clone() } else if k == 1 && both { f.s.clone() } else { w };
        if o != w { *h.lock().unwrap() = true; }
        w
    }, || run_union::<MockPcs>(&a, &b, &u, &r, 72));
    let hit = *hit.lock().unwrap();
    if hit { g.tag("altered"); }
    if o.verdict.accepted() && !truth { return Err("wrong union accepted with a forged sum bag".into()); }
    Ok(hit && !truth)
}
fn run_inter<P: TestPcs>(x: &[&B; 6], seed: u64) -> Outcome {
    let n: Vec<usize> = x.iter().map(|b| b.nv()).collect();
    let cols: Vec<Vec<Fr>> = x.iter().flat_map(|b| b.cols()).collect();
    run_op::<P>(&cols, seed,
        |pt, c| SetIntersectIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4), &bag(c, 6), &bag(c, 8), &bag(c, 10)),
        |vt, c| SetIntersectIOP::<E, P>::verify(vt, &bagc(c, 0, n[0]), &bagc(c, 2, n[1]), &bagc(c, 4, n[2]), &bagc(c, 6, n[3]), &bagc(c, 8, n[4]), &bagc(c, 10, n[5])))
}
struct Inter { a: B, b: B, l: B, m: B, r: B }
fn gen_inter(g: &mut Gen) -> Inter {
    let (va, vb) = two_sets(g);
    let mut l: Vec<Fr> = va.iter().filter(|x| !vb.contains(x)).copied().collect();
    let mut m: Vec<Fr> = va.iter().filter(|x| vb.contains(x)).copied().collect();
    let mut r: Vec<Fr> = vb.iter().filter(|x| !va.contains(x)).copied().collect();
    match g.weighted(&[5, 2, 1, 1]) {
        0 => {}
        1 => { match g.below(3) { 0 => edit_vals(g, &mut l), 1 => edit_vals(g, &mut m), _ => edit_vals(g, &mut r) } }
        2 => if !m.is_empty() { let x = m.pop().unwrap(); l.push(x); if g.bool() { r.push(x); } }, // a common element left out of the middle
        _ => if !l.is_empty() { let x = l.pop().unwrap(); m.push(x); }, // misplaced into the middle
    }
    let a = set_col(g, &va, 1);
    let b = set_col(g, &vb, 1);
    let mut q = [set_col(g, &l, 1), set_col(g, &m, 1), set_col(g, &r, 1)];
    if g.chance(1, 8) { let i = g.size(0, 2); let d = dom(g); perturb(g, &mut q[i], d); }
    let [l, m, r] = q;
    Inter { a, b, l, m, r }
}
fn inter_holds(x: &Inter, range: &B) -> bool {
    add_w(&x.l.weights(), &x.m.weights()) == x.a.weights() && add_w(&x.m.weights(), &x.r.weights()) == x.b.weights() && merged_strict(&x.l, &x.r, range)
}
fn c18_inter(g: &mut Gen) -> R {
    let x = gen_inter(g);
    let range = range(g);
    g.note(format!("a={} b={} l={} m={} r={}", x.a.show(), x.b.show(), x.l.show(), x.m.show(), x.r.show()));
    let want = inter_holds(&x, &range);
    if want && x.m.set() != x.a.set().intersection(&x.b.set()).copied().collect() { return Err("oracle error: intersection relation".into()); }
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_inter, &[&x.a, &x.b, &x.l, &x.m, &x.r, &range], 73);
    expect(g, &o, want, "set intersection")?;
    Ok(!x.a.set().is_empty() && !x.b.set().is_empty())
}
fn run_diff<P: TestPcs>(x: &[&B; 5], bm: &Vec<Fr>, seed: u64) -> Outcome {
    let n: Vec<usize> = x.iter().map(|b| b.nv()).collect();
    let mut cols: Vec<Vec<Fr>> = x.iter().flat_map(|b| b.cols()).collect();
    cols.push(bm.clone());
    run_op::<P>(&cols, seed,
        |pt, c| SetDiffIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &bag(c, 4), &bag(c, 6), &c[10], &bag(c, 8)),
        |vt, c| SetDiffIOP::<E, P>::verify(vt, &bagc(c, 0, n[0]), &bagc(c, 2, n[1]), &bagc(c, 4, n[2]), &bagc(c, 6, n[3]), &c[10], &bagc(c, 8, n[4])))
}
/// multiplicities of the elements of `m` over the rows of `b`
fn mult_in(m: &B, b: &B) -> Vec<Fr> {
    let mut w = m.weights();
    (0..b.len()).map(|i| if b.s[i].is_zero() { Fr::zero() } else { w.remove(&b.v[i]).unwrap_or(Fr::zero()) }).collect()
}
fn c18_diff(g: &mut Gen) -> R {
    let x = gen_inter(g);
    let range = range(g);
    let mut bm = mult_in(&x.m, &x.b);
    if g.chance(1, 6) { let i = g.size(0, bm.len() - 1); bm[i] = g.fr(); }
    g.note(format!("a={} b={} l={} m={} bm={}", x.a.show(), x.b.show(), x.l.show(), x.m.show(), shows(&bm)));
    let want = add_w(&x.l.weights(), &x.m.weights()) == x.a.weights()
        && merged_strict(&x.l, &x.b, &range)
        && x.m.weights() == weights(&x.b.v, &x.b.s, Some(&bm));
    if want && x.l.set() != x.a.set().difference(&x.b.set()).copied().collect() { return Err("oracle error: difference relation".into()); }
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_diff, &[&x.a, &x.b, &x.l, &x.m, &range], &bm, 74);
    expect(g, &o, want, "set difference")?;
    Ok(!x.a.set().is_empty() && !x.b.set().is_empty())
}
/// Intersection or difference with a forged merge of the parts that must be disjoint.
fn c18_forge(g: &mut Gen) -> R {
    let mut x = gen_inter(g);
    let range = range(g);
    let diff = g.bool();
    // hide a common element: keep it on the left (and on the right) instead of the middle
    let common: Vec<Fr> = x.a.set().intersection(&x.b.set()).copied().collect();
    if common.is_empty() { return Ok(false); }
    let c = *g.pick(&common);
    let pull = |g: &mut Gen, b: &B, add: bool| { let mut v: Vec<Fr> = b.active().into_iter().filter(|y| *y != c).collect(); if add { v.push(c); } set_col(g, &v, 1) };
    x.l = pull(g, &x.l, true);
    x.m = pull(g, &x.m, false);
    x.r = pull(g, &x.r, true);
    let bm = mult_in(&x.m, &x.b);
    let other = if diff { &x.b } else { &x.r };
    let kind = g.below(3);
    let fake = counted_layout(&[x.l.active(), other.active()].concat(), x.l.nv().max(other.nv()) + 1, kind == 2);
    g.note(format!("a={} b={} l={} m={} r={} diff={diff} forged merge={} kind {kind}", x.a.show(), x.b.show(), x.l.show(), x.m.show(), x.r.show(), fake.show()));
    let (f, hit) = (fake.clone(), Arc::new(Mutex::new(false)));
    let h = hit.clone();
    // replace whichever committed pair looks like the honest merge
    let mut hv = [x.l.active(), other.active()].concat();
    hv.sort();
    let honest = sorted_layout(&hv, fake.nv());
    let skip = if diff { 11 } else { 12 };
    let o = dishonest(skip, move |_, w| {
        if w == honest.v { *h.lock().unwrap() = true; f.v.clone() } else if w == honest.s && kind != 1 { f.s.clone() } else { w }
    }, || if diff { run_diff::<MockPcs>(&[&x.a, &x.b, &x.l, &x.m, &range], &bm, 75) } else { run_inter::<MockPcs>(&[&x.a, &x.b, &x.l, &x.m, &x.r, &range], 76) });
    let hit = *hit.lock().unwrap();
    if hit { g.tag("altered"); }
    if o.verdict.accepted() { return Err("a common element was hidden with a forged merge".into()); }
    Ok(hit)
}

// ---------------------------------------------------------------- C19
fn run_join<P: TestPcs>(a: &B, b: &B, l: &Vec<Fr>, r: &Vec<Fr>, range: &B, seed: u64) -> Outcome {
    let n = [a.nv(), b.nv(), range.nv()];
    run_op::<P>(&[a.cols(), b.cols(), range.cols(), vec![l.clone(), r.clone()]].concat(), seed,
        |pt, c| JoinReductionIOP::<E, P>::prove(pt, &bag(c, 0), &bag(c, 2), &c[6], &c[7], &bag(c, 4)),
        |vt, c| JoinReductionIOP::<E, P>::verify(vt, &bagc(c, 0, n[0]), &bagc(c, 2, n[1]), &c[6], &c[7], &bagc(c, 4, n[2])))
}
fn no_partner(a: &B, b: &B) -> Vec<Fr> { let s = b.set(); a.v.iter().map(|v| fr(!s.contains(v) as i64)).collect() }
fn gen_join(g: &mut Gen) -> (B, B) {
    let dom = *g.pick(&[6u64, 16, 3]);
    let dom = g.dom(dom);
    let na = g.nv(1, 3);
    let a = gen_bag(g, na, dom);
    let nb = g.nv(1, 3);
    let mut b = gen_bag(g, nb, dom);
    match g.below(6) {
        0 => { let s = a.set(); for i in 0..b.len() { if s.contains(&b.v[i]) { b.s[i] = Fr::zero(); } } } // nothing matches
        1 => { let p = a.active(); if !p.is_empty() { for v in b.v.iter_mut() { *v = *g.pick(&p); } } } // everything on the right matches
        _ => {}
    }
    if g.bool() { (a, b) } else { (b, a) }
}
fn c19_join(g: &mut Gen) -> R {
    let (a, b) = gen_join(g);
    let range = range(g);
    let (mut l, mut r) = (no_partner(&a, &b), no_partner(&b, &a));
    for i in 0..l.len() { if a.s[i].is_zero() { l[i] = fr(g.bool() as i64); } }
    for i in 0..r.len() { if b.s[i].is_zero() { r[i] = fr(g.bool() as i64); } }
    match g.weighted(&[5, 2, 2, 1, 1, 1, 1]) {
        0 => {}
        1 => { let i = g.size(0, l.len() - 1); l[i] = Fr::one() - l[i]; }
        2 => { let i = g.size(0, r.len() - 1); r[i] = Fr::one() - r[i]; }
        3 => { // the same value flipped everywhere, on one or both sides
            let v = if g.bool() { *g.pick(&a.v) } else { *g.pick(&b.v) };
            let which = g.below(3);
            if which != 1 { for i in 0..l.len() { if a.v[i] == v { l[i] = Fr::one() - l[i]; } } }
            if which != 0 { for i in 0..r.len() { if b.v[i] == v { r[i] = Fr::one() - r[i]; } } }
        }
        6 => { if g.bool() { cancel_bool(g, &mut l) } else { cancel_bool(g, &mut r) } }
        4 => { let i = g.size(0, l.len() - 1); l[i] = g.fr(); }
        _ => { let i = g.size(0, r.len() - 1); r[i] = g.fr(); }
    }
    g.note(format!("a={} b={} l={} r={}", a.show(), b.show(), shows(&l), shows(&r)));
    let bin = |x: &[Fr]| x.iter().all(|v| v.is_zero() || v.is_one());
    let right = |x: &B, y: &B, s: &[Fr]| { let t = no_partner(x, y); (0..s.len()).all(|i| x.s[i].is_zero() || s[i] == t[i]) };
    let want = bin(&l) && bin(&r) && right(&a, &b, &l) && right(&b, &a, &r);
    let sc = pick_scheme(g, 16);
    let o = with_scheme!(sc, run_join, &a, &b, &l, &r, &range, 81);
    expect(g, &o, want, "join reduction")?;
    Ok(!a.set().is_empty() && !b.set().is_empty())
}
/// the selectors computed for the prover are provable
fn c19_generated(g: &mut Gen) -> R {
    let (a, b) = gen_join(g);
    let range = range(g);
    g.note(format!("a={} b={}", a.show(), b.show()));
    let (l, r) = guarded(|| calc_join_reduction_lr_sel_advice::<E>(&dmle(&a.v), &dmle(&a.s), &dmle(&b.v), &dmle(&b.s))).map_err(|e| format!("advice failed: {e}"))?;
    let right = |x: &B, y: &B, s: &[Fr]| { let t = no_partner(x, y); s.len() == x.len() && (0..s.len()).all(|i| x.s[i].is_zero() || s[i] == t[i]) };
    if !right(&a, &b, &l.evaluations) || !right(&b, &a, &r.evaluations) { return Err(format!("computed selectors are wrong: l={} r={}", shows(&l.evaluations), shows(&r.evaluations)).into()); }
    let sc = pick_scheme(g, 16);
    let o = with_scheme!(sc, run_join, &a, &b, &l.evaluations, &r.evaluations, &range, 82);
    expect(g, &o, true, "join reduction with computed selectors")?;
    Ok(!a.set().is_empty() && !b.set().is_empty())
}
/// A prover with one wrong selector entry replaces any one later commitment by an arbitrary
/// or zero column; never accepted.
fn c19_forge(g: &mut Gen) -> R {
    let (a, b) = gen_join(g);
    let range = range(g);
    let (mut l, mut r) = (no_partner(&a, &b), no_partner(&b, &a));
    let flip_a = g.bool();
    let (x, s) = if flip_a { (&a, &mut l) } else { (&b, &mut r) };
    let rows: Vec<usize> = (0..x.len()).filter(|i| !x.s[*i].is_zero()).collect();
    if rows.is_empty() { return Ok(false); }
    let i = *g.pick(&rows);
    s[i] = Fr::one() - s[i];
    let at = g.size(0, 24);
    let kind = g.below(3);
    let d = g.fr_nz();
    let row = g.below(64) as usize;
    g.note(format!("a={} b={} l={} r={} forge commitment {at} kind {kind}", a.show(), b.show(), shows(&l), shows(&r)));
    let o = dishonest(8, move |k, mut w| {
        if k == at {
            let n = w.len();
            match kind { 0 => w = vec![Fr::zero(); n], 1 => w[row % n] += d, _ => w[row % n] = Fr::zero() }
        }
        w
    }, || run_join::<MockPcs>(&a, &b, &l, &r, &range, 83));
    if o.verdict.accepted() { return Err("wrong join selector accepted".into()); }
    Ok(true)
}

pub fn props() -> Vec<Prop> {
    let ass = vec![
        "most cases run on an ideal commitment scheme (a commitment is the evaluation table); one case in about twelve runs on the repository's KZG scheme",
        "soundness errors of the underlying argument (about 2^-240 per case) are treated as impossible",
        "columns have 2 to 32 rows, values below 16 with a range column of 16 entries"];
    vec![
        Prop { id: "C18", rule: "pairs of sets over 0..16 with every kind of overlap, results right or with one element missing, extra, replaced, repeated or misplaced, arbitrary order, padding and inactive content; provers that forge the internal merged bag; non-trivial: both sets have an element (forgeries: the column was really replaced)",
            families: vec![fam("union", 5000, 150000, c18_union).dbg(5), fam("union-forged", 3500, 100000, c18_union_forge), fam("intersect", 4500, 150000, c18_inter).dbg(5), fam("diff", 4500, 150000, c18_diff).dbg(5), fam("hide-forged", 3500, 100000, c18_forge), fam("union-forging", 1200, 36000, forged!(c18_union)), fam("intersect-forging", 1200, 36000, forged!(c18_inter)), fam("diff-forging", 1200, 36000, forged!(c18_diff)), fam("union-large", 400, 20000, large!(c18_union)), fam("intersect-large", 320, 15000, large!(c18_inter)), fam("diff-large", 320, 15000, large!(c18_diff)), fam("union-shared", 800, 24000, crate::shared!(c18_union)), fam("intersect-shared", 800, 24000, crate::shared!(c18_inter)), fam("diff-shared", 800, 24000, crate::shared!(c18_diff))], assumptions: ass.clone() },
        Prop { id: "C19", rule: "two key columns with repetitions and inactive rows, selectors right or wrong in one row, one value, or not boolean; computed selectors; provers that replace an internal column; non-trivial: both sides have an active key",
            families: vec![fam("selectors", 4200, 120000, c19_join).dbg(5), fam("generated", 2500, 80000, c19_generated).dbg(5), fam("forged", 2500, 80000, c19_forge), fam("selectors-forging", 1500, 45000, forged!(c19_join)), fam("selectors-large", 320, 15000, large!(c19_join)), fam("generated-large", 320, 15000, large!(c19_generated)), fam("selectors-shared", 1200, 36000, crate::shared!(c19_join))], assumptions: ass },
    ]
}

pub fn parts() -> Vec<super::compose::Part> {
    vec![("union", c18_union), ("intersection", c18_inter), ("difference", c18_diff), ("join reduction", c19_join)]
}
