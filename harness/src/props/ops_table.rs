//! C20-C23: operators on tables.
use super::common::*;
use crate::gen::Gen;
use crate::pcs::*;
use crate::pipe::*;
use crate::runner::*;
use crate::{forged, huge, large, limbs, long};
use crate::with_scheme;
use ark_bls12_381::Fr;
use ark_ff::{Field, One, Zero};
use ark_poly::MultilinearExtension;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use zk_sql::tracker::prelude::*;
use zk_sql::zksql_poly_iop::verif_exports::*;

/// A table: columns and the row selector.
#[derive(Clone, Debug, PartialEq)]
struct T { c: Vec<Vec<Fr>>, s: Vec<Fr> }
impl T {
    fn nv(&self) -> usize { log2(self.s.len()) }
    fn len(&self) -> usize { self.s.len() }
    fn cols(&self) -> Vec<Vec<Fr>> { let mut v = self.c.clone(); v.push(self.s.clone()); v }
    fn row(&self, i: usize) -> Vec<Fr> { self.c.iter().map(|c| c[i]).collect() }
    fn active(&self) -> Vec<usize> { (0..self.len()).filter(|i| !self.s[*i].is_zero()).collect() }
    fn rows(&self) -> BTreeSet<Vec<Fr>> { self.active().into_iter().map(|i| self.row(i)).collect() }
    fn show(&self) -> String {
        (0..self.len()).map(|i| { let r = self.row(i).iter().map(show).collect::<Vec<_>>().join(","); if self.s[i].is_zero() { format!("({r})") } else { r } }).collect::<Vec<_>>().join(" ")
    }
}
fn gen_table(g: &mut Gen, k: usize, nv: usize, dom: u64) -> T {
    let c = (0..k).map(|_| { let v = (0..1 << nv).map(|_| gen_val(g, dom)).collect(); g.twin(0, v) }).collect();
    let s = gen_sel(g, 1 << nv);
    T { c, s: g.twin(1, s) }
}
fn table<P: TestPcs>(c: &[TP<P>], at: usize, k: usize) -> Table<E, P> { Table::new(c[at..at + k].to_vec(), c[at + k].clone()) }
fn tablec<P: TestPcs>(c: &[TC<P>], at: usize, k: usize, nv: usize) -> TableComm<E, P> { TableComm::new(c[at..at + k].to_vec(), c[at + k].clone(), nv) }

// ---------------------------------------------------------------- C20
fn cross(a: &T, b: &T) -> T {
    let (n, m) = (a.len(), b.len());
    let mut c: Vec<Vec<Fr>> = a.c.iter().map(|x| (0..n * m).map(|i| x[i / m]).collect()).collect();
    c.extend(b.c.iter().map(|x| (0..n * m).map(|i| x[i % m]).collect::<Vec<_>>()));
    T { c, s: (0..n * m).map(|i| a.s[i / m] * b.s[i % m]).collect() }
}
/// columns made from the committed ones: as they are, scaled, shifted, or summed
#[derive(Clone, Debug)]
enum Der { Id, Scale(Fr), Shift(Fr), Plus(usize) }
fn der_apply(d: &Der, i: usize, cols: &[Vec<Fr>]) -> Vec<Fr> {
    match d {
        Der::Id => cols[i].clone(),
        Der::Scale(x) => cols[i].iter().map(|v| *v * x).collect(),
        Der::Shift(x) => cols[i].iter().map(|v| *v + x).collect(),
        Der::Plus(j) => cols[i].iter().zip(&cols[*j]).map(|(a, b)| *a + b).collect(),
    }
}
fn gen_ders(g: &mut Gen, k: usize) -> Vec<Der> {
    (0..k).map(|_| match g.weighted(&[5, 1, 1, 1]) { 0 => Der::Id, 1 => Der::Scale(g.fr()), 2 => Der::Shift(g.fr()), _ => Der::Plus(g.size(0, k - 1)) }).collect()
}
fn der_p<P: TestPcs>(ds: &[Der], t: Table<E, P>) -> Table<E, P> {
    let cols = ds.iter().enumerate().map(|(i, d)| match d { Der::Id => t.col_vals[i].clone(), Der::Scale(x) => t.col_vals[i].mul_scalar(*x), Der::Shift(x) => t.col_vals[i].add_scalar(*x), Der::Plus(j) => t.col_vals[i].add_poly(&t.col_vals[*j]) }).collect();
    Table::new(cols, t.selector)
}
fn der_v<P: TestPcs>(ds: &[Der], t: TableComm<E, P>) -> TableComm<E, P> {
    let nv = t.num_vars();
    let cols = ds.iter().enumerate().map(|(i, d)| match d { Der::Id => t.col_vals[i].clone(), Der::Scale(x) => t.col_vals[i].mul_scalar(*x), Der::Shift(x) => t.col_vals[i].add_scalar(*x), Der::Plus(j) => t.col_vals[i].add_comms(&t.col_vals[*j]) }).collect();
    TableComm::new(cols, t.selector, nv)
}
fn at(v: &[Fr], p: &[Fr]) -> Fr { dmle(v).evaluate(p).unwrap() }

fn run_cross<P: TestPcs>(a: &T, b: &T, da: &[Der], db: &[Der], third: Option<&T>, pt: &[Fr]) -> Result<(), String> {
    let (pp, vp) = P::params();
    let e = |x: PolyIOPErrors| format!("{x:?}");
    let (ea, eb) = (T { c: (0..a.c.len()).map(|i| der_apply(&da[i], i, &a.c)).collect(), s: a.s.clone() }, T { c: (0..b.c.len()).map(|i| der_apply(&db[i], i, &b.c)).collect(), s: b.s.clone() });
    let mut want = cross(&ea, &eb);
    if let Some(c) = third { want = cross(&want, c); }
    let mut p = PT::<P>::new_from_pcs_params(pp);
    let mut v = new_vt::<P>(vp);
    let mut all = [a.cols(), b.cols()].concat();
    if let Some(c) = third { all.extend(c.cols()); }
    let cols: Vec<TP<P>> = all.iter().map(|c| p.track_and_commit_poly(dmle(c)).unwrap()).collect();
    let comms: Vec<TC<P>> = cols.iter().map(|c| v.track_mat_comm(p.clone_underlying_tracker().materialized_comms[&c.id].clone()).unwrap()).collect();
    let (ka, kb) = (a.c.len(), b.c.len());
    let ta = der_p(da, table(&cols, 0, ka));
    let tb = der_p(db, table(&cols, ka + 1, kb));
    let va = der_v(da, tablec(&comms, 0, ka, a.nv()));
    let vb = der_v(db, tablec(&comms, ka + 1, kb, b.nv()));
    let mut tr = CrossProductIOP::<E, P>::prover_cross_product(&ta, &tb).map_err(e)?;
    let mut vr = CrossProductIOP::<E, P>::verifier_cross_product(&va, &vb).map_err(e)?;
    if let Some(c) = third {
        let tc = table(&cols, ka + kb + 2, c.c.len());
        let vc = tablec(&comms, ka + kb + 2, c.c.len(), c.nv());
        tr = CrossProductIOP::<E, P>::prover_cross_product(&tr, &tc).map_err(e)?;
        vr = CrossProductIOP::<E, P>::verifier_cross_product(&vr, &vc).map_err(e)?;
    }
    if tr.num_vars() != want.nv() || vr.num_vars() != want.nv() { return Err(format!("result sizes {} {} instead of {}", tr.num_vars(), vr.num_vars(), want.nv())); }
    if tr.col_vals.len() != want.c.len() || vr.col_vals.len() != want.c.len() { return Err("wrong number of columns".into()); }
    for (i, c) in tr.col_vals.iter().enumerate() {
        if c.num_vars() != want.nv() { return Err(format!("column {i} has {} variables", c.num_vars())); }
        if c.evaluations() != want.c[i] { return Err(format!("column {i} is {} instead of {}", shows(&c.evaluations()), shows(&want.c[i]))); }
    }
    if tr.selector.num_vars() != want.nv() || tr.selector.evaluations() != want.s { return Err(format!("selector is {} instead of {}", shows(&tr.selector.evaluations()), shows(&want.s))); }
    // identifiers stay in step
    if tr.selector.id != vr.selector.id || tr.col_vals.iter().zip(&vr.col_vals).any(|(x, y)| x.id != y.id) { return Err("identifiers differ".into()); }
    fill_queries(&p, &v, pt);
    for (i, c) in vr.col_vals.iter().enumerate() {
        let (w, q) = (at(&want.c[i], pt), tr.col_vals[i].evaluate(pt).unwrap());
        let got = c.eval_virtual_comm(pt).map_err(e)?;
        if got != w || q != w { return Err(format!("column {i} at a random point: verifier {} prover {} instead of {}", show(&got), show(&q), show(&w))); }
    }
    // at random points for one product, at hypercube points for a nested one
    let pts: Vec<Vec<Fr>> = if third.is_none() { vec![pt.to_vec()] } else { (0..want.len()).map(|i| (0..want.nv()).map(|j| fr((i >> j & 1) as i64)).collect()).collect() };
    for (i, q) in pts.iter().enumerate() {
        fill_queries(&p, &v, q);
        let w = if third.is_none() { at(&a.s, &q[b.nv()..]) * at(&b.s, &q[..b.nv()]) } else { want.s[i] };
        let got = vr.selector.eval_virtual_comm(q).map_err(e)?;
        if got != w || tr.selector.evaluate(q).unwrap() != w { return Err(format!("selector at a point: verifier {} prover {} instead of {}", show(&got), show(&tr.selector.evaluate(q).unwrap()), show(&w))); }
    }
    Ok(())
}
fn c20_pairs(g: &mut Gen) -> R {
    let (ka, kb) = (g.size(1, g.lor(3, 12)), g.size(1, g.lor(3, 12)));
    let (na, nb) = if g.large { (g.size(4, 5), g.size(4, 5)) } else { (g.size(1, 3), g.size(1, 3)) };
    let dom = *g.pick(&[5u64, 0]);
    let (a, b) = (gen_table(g, ka, na, dom), gen_table(g, kb, nb, dom));
    let (da, db) = (gen_ders(g, ka), gen_ders(g, kb));
    let third = if g.chance(1, 4) { let (k, n) = (g.size(1, 2), g.size(1, 2)); Some(gen_table(g, k, n, dom)) } else { None };
    let n = na + nb + third.as_ref().map_or(0, |t| t.nv());
    let pt: Vec<Fr> = (0..n).map(|_| g.fr_random()).collect();
    g.note(format!("a={} {da:?} b={} {db:?} c={}", a.show(), b.show(), third.as_ref().map_or(String::new(), |t| t.show())));
    if third.is_some() { g.tag("nested"); }
    let sc = pick_scheme(g, 12);
    let r = guarded(|| with_scheme!(sc, run_cross, &a, &b, &da, &db, third.as_ref(), &pt)).map_err(|p| format!("panic: {p}"))?;
    r.map_err(|m| Fail::from(format!("cross product: {m}")))?;
    Ok(na != nb || ka + kb > 2)
}
fn run_cross_claims<P: TestPcs>(a: &T, b: &T, w: &T, u: &B, kind: u64, sum: Fr, seed: u64) -> Outcome {
    let (ka, kb) = (a.c.len(), b.c.len());
    let (na, nb, nw, nu) = (a.nv(), b.nv(), w.nv(), u.nv());
    run_op::<P>(&[a.cols(), b.cols(), w.cols(), u.cols()].concat(), seed,
        |pt, c| {
            let t = CrossProductIOP::<E, P>::prover_cross_product(&table(c, 0, ka), &table(c, ka + 1, kb))?;
            super::compose::outputs::<P>(&t.col_vals);
            let at = ka + kb + 2;
            match kind {
                0 => { // every column equals the committed one, and so does the selector
                    for i in 0..t.col_vals.len() { let d = t.col_vals[i].sub_poly(&c[at + i]); pt.add_zerocheck_claim(d.id); }
                    let d = t.selector.sub_poly(&c[at + ka + kb]);
                    pt.add_zerocheck_claim(d.id);
                    Ok(())
                }
                1 => { let p = t.col_vals[0].mul_poly(t.col_vals.last().unwrap()).mul_poly(&t.selector); pt.add_sumcheck_claim(p.id, sum); Ok(()) }
                2 => IndexTransformIOP::<E, P>::prove(pt, &t, &table(c, at, ka + kb)),
                _ => BagEqIOP::<E, P>::prove(pt, &Bag::new(t.col_vals[ka].clone(), t.selector.clone()), &bag(c, at + ka + kb + 1)),
            }
        },
        |vt, c| {
            let t = CrossProductIOP::<E, P>::verifier_cross_product(&tablec(c, 0, ka, na), &tablec(c, ka + 1, kb, nb))?;
            super::compose::outputs_v::<P>(&t.col_vals);
            let at = ka + kb + 2;
            match kind {
                0 => {
                    for i in 0..t.col_vals.len() { let d = t.col_vals[i].sub_comms(&c[at + i]); vt.add_zerocheck_claim(d.id); }
                    let d = t.selector.sub_comms(&c[at + ka + kb]);
                    vt.add_zerocheck_claim(d.id);
                    Ok(())
                }
                1 => { let p = t.col_vals[0].mul_comms(t.col_vals.last().unwrap()).mul_comms(&t.selector); vt.add_sumcheck_claim(p.id, super::compose::scaled::<P>(sum, na + nb)); Ok(()) }
                2 => IndexTransformIOP::<E, P>::verify(vt, &t, &tablec(c, at, ka + kb, nw)),
                _ => BagEqIOP::<E, P>::verify(vt, &BagComm::new(t.col_vals[ka].clone(), t.selector.clone(), na + nb), &bagc(c, at + ka + kb + 1, nu)),
            }
        })
}
fn c20_claims(g: &mut Gen) -> R {
    let (ka, kb) = (g.size(1, 2), g.size(1, 2));
    let (na, nb) = (g.size(1, 2), g.size(1, 2));
    let (a, b) = (gen_table(g, ka, na, 4), gen_table(g, kb, nb, 4));
    let full = cross(&a, &b);
    let mut w = full.clone();
    let n = w.len();
    let kind = g.below(4);
    let mut sum: Fr = (0..n).map(|i| full.c[0][i] * full.c[ka + kb - 1][i] * full.s[i]).sum();
    if kind == 2 { // rows of the product in any order, repeated, with inactive rows
        let act = full.active();
        for i in 0..n { if !act.is_empty() { let r = *g.pick(&act); for (j, c) in w.c.iter_mut().enumerate() { c[i] = full.c[j][r]; } w.s[i] = fr(g.bool() as i64); } }
    }
    if g.bool() { // one wrong cell
        let i = g.size(0, n - 1);
        let j = g.size(0, ka + kb);
        if j == ka + kb { w.s[i] = Fr::one() - w.s[i] } else { w.c[j][i] = if g.bool() { gen_val(g, 4) } else { w.c[j][i] + Fr::one() } }
        if kind == 1 { sum += g.fr_nz(); }
    }
    let u = { let mut u = permute(g, &B { v: full.c[ka].clone(), s: full.s.clone() }); if g.bool() { perturb(g, &mut u, 4); } u };
    g.note(format!("a={} b={} w={} u={} kind={kind}", a.show(), b.show(), w.show(), u.show()));
    let want = match kind {
        0 => w == full,
        1 => sum == (0..n).map(|i| full.c[0][i] * full.c[ka + kb - 1][i] * full.s[i]).sum::<Fr>(),
        2 => w.rows().is_subset(&full.rows()),
        _ => u.weights() == weights(&full.c[ka], &full.s, None),
    };
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_cross_claims, &a, &b, &w, &u, kind, sum, 91);
    expect(g, &o, want, "claims about a cross product")?;
    Ok(true)
}
fn c20_alias(g: &mut Gen) -> R {
    let nv = g.size(1, 3);
    let add = g.size(0, 3);
    let v: Vec<Fr> = (0..1 << nv).map(|_| gen_val(g, 0)).collect();
    let pt: Vec<Fr> = (0..nv + add).map(|_| g.fr_random()).collect();
    g.note(format!("col={} added={add}", shows(&v)));
    let m = 1usize << add;
    let front: Vec<Fr> = (0..v.len() * m).map(|i| v[i / m]).collect();
    let back: Vec<Fr> = (0..v.len() * m).map(|i| v[i % v.len()]).collect();
    guarded(|| {
        let mut p = PT::<MockPcs>::new_from_pcs_params(24);
        let t = p.track_mat_poly(dmle(&v));
        let xs = [front_alias_tracked_poly(&mut p, &t, add), back_alias_tracked_poly(&mut p, &t, add), t.increase_nv_front(add), t.increase_nv_back(add)];
        for (i, x) in xs.iter().enumerate() {
            let w = if i % 2 == 0 { &front } else { &back };
            if &x.evaluations() != w || x.num_vars() != nv + add { return Err(format!("variant {i}: {} instead of {}", shows(&x.evaluations()), shows(w))); }
            let e = if i % 2 == 0 { at(&v, &pt[add..]) } else { at(&v, &pt[..nv]) };
            if x.evaluate(&pt) != Some(e) { return Err(format!("variant {i} at a random point")); }
        }
        Ok(())
    }).map_err(|p| format!("panic: {p}"))?.map_err(|m| Fail::from(format!("aliased column: {m}")))?;
    Ok(add > 0)
}

// ---------------------------------------------------------------- C21
fn run_it<P: TestPcs>(a: &T, b: &T, seed: u64) -> Outcome {
    let (ka, kb, na, nb) = (a.c.len(), b.c.len(), a.nv(), b.nv());
    run_op::<P>(&[a.cols(), b.cols()].concat(), seed,
        |pt, c| IndexTransformIOP::<E, P>::prove(pt, &table(c, 0, ka), &table(c, ka + 1, kb)),
        |vt, c| IndexTransformIOP::<E, P>::verify(vt, &tablec(c, 0, ka, na), &tablec(c, ka + 1, kb, nb)))
}
fn set_row(t: &mut T, i: usize, r: &[Fr]) { for (c, x) in t.c.iter_mut().zip(r) { c[i] = *x; } }
fn gen_it(g: &mut Gen) -> (T, T) {
    let k = g.size(1, if g.long { 20 } else { g.or(4, 12) as usize });
    let (na, nb) = (g.nv(1, 3), g.nv(1, 3));
    let dom = *g.pick(&[3u64, 8, 0]);
    let a = gen_table(g, k, na, dom);
    if g.twins && g.bool() { // nearly the same table
        let mut b = a.clone();
        for _ in 0..g.size(0, 2) {
            let (i, j, c) = (g.size(0, b.len() - 1), g.size(0, b.len() - 1), g.size(0, k - 1));
            match g.below(3) { 0 => b.c[c].swap(i, j), 1 => b.s[i] = Fr::one() - b.s[i], _ => b.c[c][i] = b.c[c][j] }
        }
        return (a, b);
    }
    let mut b = gen_table(g, k, nb, dom);
    let act = a.active();
    for i in 0..b.len() {
        if b.s[i].is_zero() && g.bool() { continue; }
        let r = if !act.is_empty() && (!b.s[i].is_zero() || g.bool()) { *g.pick(&act) } else { g.size(0, a.len() - 1) };
        set_row(&mut b, i, &a.row(r));
    }
    (a, b)
}
/// one row of the output becomes something that no single column gives away
fn spoil(g: &mut Gen, a: &T, b: &mut T) {
    let rows = b.active();
    let i = if rows.is_empty() || g.chance(1, 4) { g.size(0, b.len() - 1) } else { *g.pick(&rows) };
    let k = b.c.len();
    let mut r = b.row(i);
    let (x, y) = (g.size(0, k - 1), g.size(0, k - 1));
    match g.below(7) {
        0 => { let m = g.size(0, a.len() - 1); r[x] = a.c[x][m]; } // cell of another row
        1 => { for j in 0..k { let m = g.size(0, a.len() - 1); r[j] = a.c[j][m]; } }
        2 => r.swap(x, y),
        3 => { let d = g.fr_nz(); r[x] += d; r[y] -= d; } // same sum
        4 => { let d = Fr::from(1 + g.below(3)); let c = Fr::from(2 + g.below(4)); r[x] += d * c; r[y] -= d; } // same under small coefficients
        5 => { let m = g.size(0, a.len() - 1); r = a.row(m); } // possibly an inactive row
        _ => { r[x] += Fr::one(); }
    }
    set_row(b, i, &r);
}
fn c21_rows(g: &mut Gen) -> R {
    let (a, mut b) = gen_it(g);
    if g.bool() { spoil(g, &a, &mut b); }
    state_it(g, &a, &b)
}
fn state_it(g: &mut Gen, a: &T, b: &T) -> R {
    g.note(format!("in={} out={}", a.show(), b.show()));
    let want = b.rows().is_subset(&a.rows());
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_it, a, b, 101);
    expect(g, &o, want, "index transform")?;
    Ok(!b.active().is_empty() && a.c.len() > 1)
}
fn c21_forge(g: &mut Gen) -> R {
    let (a, mut b) = gen_it(g);
    spoil(g, &a, &mut b);
    if b.rows().is_subset(&a.rows()) { return Ok(false); }
    let kind = g.below(4);
    let at = g.size(0, 4);
    let row = g.below(64) as usize;
    let d = g.fr_nz();
    g.note(format!("in={} out={} forge {kind} at {at} row {row}", a.show(), b.show()));
    let skip = a.c.len() + b.c.len() + 2;
    let o = dishonest(skip, move |k, mut w| {
        if k == at { let n = w.len(); match kind { 0 => w = vec![Fr::zero(); n], 1 => w[row % n] += d, 2 => w[row % n] += Fr::one(), _ => w = vec![Fr::one(); n] } }
        w
    }, || run_it::<MockPcs>(&a, &b, 102));
    if o.verdict.accepted() { return Err("an output row that is not an input row was accepted".into()); }
    Ok(true)
}
/// tables of different widths: a narrower or wider row is never a row of the input
fn c21_width(g: &mut Gen) -> R {
    let (mut a, mut b) = gen_it(g);
    let more = g.size(1, 3);
    let zero = g.chance(2, 3);
    let wide_in = g.bool();
    let t = if wide_in { &mut a } else { &mut b };
    let n = t.len();
    for _ in 0..more { t.c.push((0..n).map(|_| if zero { Fr::zero() } else { gen_val(g, 3) }).collect()); }
    g.note(format!("in={} out={}", a.show(), b.show()));
    if b.active().is_empty() { return Ok(false); }
    let sc = pick_scheme(g, 12);
    let o = with_scheme!(sc, run_it, &a, &b, 103);
    if o.verdict.accepted() { return Err(format!("rows of {} cells accepted as rows of a table with {} columns", b.c.len(), a.c.len()).into()); }
    Ok(true)
}
fn run_agg<P: TestPcs>(t: &T, co: &Vec<Fr>, pt: &[Fr], dup: u64) -> Result<(), String> {
    let (pp, vp) = P::params();
    let e = |x: PolyIOPErrors| format!("{x:?}");
    let mut p = PT::<P>::new_from_pcs_params(pp);
    let mut v = new_vt::<P>(vp);
    let cols: Vec<TP<P>> = t.cols().iter().map(|c| p.track_and_commit_poly(dmle(c)).unwrap()).collect();
    let comms: Vec<TC<P>> = cols.iter().map(|c| v.track_mat_comm(p.clone_underlying_tracker().materialized_comms[&c.id].clone()).unwrap()).collect();
    let k = t.c.len();
    let x = table_row_prover_agg(&table(&cols, 0, k), co).map_err(e)?;
    let y = table_row_verifier_agg(&tablec(&comms, 0, k, t.nv()), co).map_err(e)?;
    let want: Vec<Fr> = (0..t.len()).map(|i| (0..k).map(|j| co[j] * t.c[j][i]).sum()).collect();
    if x.poly.evaluations() != want { return Err(format!("fingerprints {} instead of {}", shows(&x.poly.evaluations()), shows(&want))); }
    if x.selector.evaluations() != t.s || y.num_vars() != t.nv() { return Err("selector or size changed".into()); }
    if x.poly.id != y.poly.id || x.selector.id != y.selector.id { return Err("identifiers differ".into()); }
    fill_queries(&p, &v, pt);
    let w = at(&want, pt);
    if x.poly.evaluate(pt) != Some(w) || y.poly.eval_virtual_comm(pt).map_err(e)? != w { return Err("fingerprint at a random point".into()); }
    // sampled coefficients agree between the sides, start at one and are pairwise different
    let r1 = prover_sample_rand_powers(&mut p, k + 1).map_err(e)?;
    let r2 = verifier_sample_rand_powers(&mut v, k + 1).map_err(e)?;
    let r3 = prover_sample_rands(&mut p, k + 1).map_err(e)?;
    let r4 = verifier_sample_rands(&mut v, k + 1).map_err(e)?;
    if r1 != r2 || r3 != r4 { return Err("sampled coefficients differ between prover and verifier".into()); }
    if r1.len() != k + 1 || r3.len() != k + 1 { return Err("wrong number of coefficients".into()); }
    let all: BTreeSet<Fr> = r1.iter().chain(&r3).copied().collect();
    if all.len() != 2 * (k + 1) || all.contains(&Fr::zero()) { return Err(format!("sampled coefficients repeat: {} {}", shows(&r1), shows(&r3))); }
    for j in 2..=k { if r1[j] * r1[0] != r1[j - 1] * r1[1] { return Err("coefficients are not powers".into()); } }
    let _ = dup;
    Ok(())
}
fn c21_agg(g: &mut Gen) -> R {
    let k = g.size(1, if g.long { 20 } else { g.or(5, 20) as usize });
    let nv = g.nv(1, 3);
    let dom = *g.pick(&[3u64, 0]);
    let t = gen_table(g, k, nv, dom);
    let co = g.fr_vec(k);
    let pt: Vec<Fr> = (0..nv).map(|_| g.fr_random()).collect();
    g.note(format!("table={} coefficients={}", t.show(), shows(&co)));
    let sc = pick_scheme(g, 12);
    let r = guarded(|| with_scheme!(sc, run_agg, &t, &co, &pt, 0)).map_err(|p| format!("panic: {p}"))?;
    r.map_err(|m| Fail::from(format!("row fingerprint: {m}")))?;
    Ok(k > 1)
}

/// A table with unit rows: the inverse columns of a run (the last two commitments) reveal the challenge and the column coefficients.
fn unit_rows(g: &mut Gen, k: usize) -> T {
    let nv = log2((k + 1).next_power_of_two()) + g.size(0, 1);
    let mut t = gen_table(g, k, nv, 5);
    for c in 0..k { for r in 0..=k { t.c[c][r] = if r == c + 1 { Fr::one() } else { Fr::zero() }; t.s[r] = Fr::one(); } }
    t
}
fn coefficients(seen: &[Vec<Fr>], k: usize, n: usize) -> Option<Vec<Fr>> {
    let w = seen.last()?;
    if w.len() != n { return None; }
    let v: Option<Vec<Fr>> = w[..=k].iter().map(|x| x.inverse()).collect();
    let v = v?;
    Some((1..=k).map(|c| v[c] - v[0]).collect())
}
/// cells with the fingerprint of `row`: all changed but the last, which makes up for them
fn same_print(g: &mut Gen, row: &[Fr], co: &[Fr], last: usize, keep: Option<usize>) -> Option<Vec<Fr>> {
    let mut r = row.to_vec();
    let free: Vec<usize> = (0..row.len()).filter(|c| *c != last && Some(*c) != keep).collect();
    if free.is_empty() { return None; }
    let k = g.size(0, free.len() - 1);
    for (i, c) in free.iter().enumerate() { if i == k || g.bool() { r[*c] = if g.bool() { r[*c] + Fr::one() } else { g.fr_random() }; } }
    let d: Fr = (0..row.len()).filter(|c| *c != last).map(|c| co[c] * (row[c] - r[c])).sum();
    r[last] = row[last] + d * co[last].inverse()?;
    Some(r)
}
fn c21_adaptive(g: &mut Gen) -> R {
    let k = g.size(2, 4);
    let a = unit_rows(g, k);
    let nb = g.size(1, 3);
    let mut b = gen_table(g, k, nb, 5);
    let act = a.active();
    for i in 0..b.len() { let r = a.row(*g.pick(&act)); set_row(&mut b, i, &r); }
    let (o, seen) = watch(2 * (k + 1), || run_it::<MockPcs>(&a, &b, 137));
    if !o.verdict.accepted() { return Ok(false); }
    let Some(co) = coefficients(&seen, k, a.len()) else { return Ok(false) };
    let i = g.size(0, b.len() - 1);
    let last = g.size(0, k - 1);
    let row = b.row(i);
    let Some(r) = same_print(g, &row, &co, last, None) else { return Ok(false) };
    set_row(&mut b, i, &r);
    b.s[i] = Fr::one();
    g.note(format!("in={} out={} changed row {i}", a.show(), b.show()));
    if a.rows().contains(&r) { return Ok(false); }
    let o = run_it::<MockPcs>(&a, &b, 138);
    if o.verdict.accepted() { return Err("a row with the fingerprint of another under the coefficients of another run was accepted".into()); }
    Ok(true)
}
/// as above inside the join: given or generated matches
fn c22_adaptive(g: &mut Gen) -> R {
    let ka = g.size(3, 4);
    let (ai, kb, nb) = (g.size(0, ka - 1), g.size(1, 2), g.size(1, 2));
    let mut a = unit_rows(g, ka);
    for i in ka + 1..a.len() { a.s[i] = Fr::zero(); }
    // keys: the unit rows give 0 (several times) and 1; only row 0 and the key's unit row stay active for uniqueness
    let n = a.len();
    let mut full = a.clone();
    for i in 0..n { full.c[ai][i] = Fr::from(i as u64); }
    let mut b = gen_table(g, kb, nb, 5);
    let bi = g.size(0, kb - 1);
    for i in 0..b.len() { b.c[bi][i] = Fr::from(g.below(ka as u64 + 1)); }
    b.s[0] = Fr::one();
    let given = g.bool();
    let adv: Vec<Vec<Fr>> = (0..ka).map(|c| (0..b.len()).map(|i| { let r = full.c[ai].iter().position(|x| *x == b.c[bi][i]).unwrap(); full.c[c][r] }).collect()).collect();
    let pt: Vec<Fr> = (0..nb).map(|_| g.fr_random()).collect();
    let skip = ka + kb + 2 + if given { ka } else { 0 };
    let (mut out, mut bad) = (None, None);
    let (o, seen) = watch(skip, || run_fj::<MockPcs>(&full, &b, ai, bi, if given { Some(&adv) } else { None }, &pt, &mut out, &mut bad, 139));
    if !o.verdict.accepted() { return Ok(false); }
    // row r has key r: 1/w[r] - 1/w[0] = r * co[key] + co[r - 1], and co[key] = (1/w[key + 1] - 1/w[0]) / (key + 1)
    let w = match seen.last() { Some(w) if w.len() == n => w, _ => return Ok(false) };
    let Some(v) = w[..=ka].iter().map(|x| x.inverse()).collect::<Option<Vec<Fr>>>() else { return Ok(false) };
    let cokey = (v[ai + 1] - v[0]) * Fr::from(ai as u64 + 1).inverse().unwrap();
    let co: Vec<Fr> = (0..ka).map(|c| if c == ai { cokey } else { v[c + 1] - v[0] - cokey * Fr::from(c as u64 + 1) }).collect();
    let rows: Vec<usize> = (0..b.len()).filter(|i| !b.s[*i].is_zero()).collect();
    let i = *g.pick(&rows);
    let last = *g.pick(&(0..ka).filter(|c| *c != ai).collect::<Vec<_>>());
    let row: Vec<Fr> = adv.iter().map(|c| c[i]).collect();
    let Some(r) = same_print(g, &row, &co, last, Some(ai)) else { return Ok(false) };
    g.note(format!("a={} b={} on {ai}={bi} row {i} matched to {} given={given}", full.show(), b.show(), shows(&r)));
    if full.rows().contains(&r) { return Ok(false); }
    let mut forged = adv.clone();
    for c in 0..ka { forged[c][i] = r[c]; }
    let o = if given { run_fj::<MockPcs>(&full, &b, ai, bi, Some(&forged), &pt, &mut out, &mut bad, 140) } else {
        dishonest(skip, move |k, w| if k < ka && w.len() == forged[k].len() { forged[k].clone() } else { w }, || run_fj::<MockPcs>(&full, &b, ai, bi, None, &pt, &mut out, &mut bad, 140))
    };
    if o.verdict.accepted() { return Err("a match with the right fingerprint under the coefficients of another run was accepted".into()); }
    Ok(true)
}

// ---------------------------------------------------------------- C22
struct Joined { cols: Vec<Vec<Fr>>, sel: Vec<Fr> }
fn run_fj<P: TestPcs>(a: &T, b: &T, ai: usize, bi: usize, adv: Option<&Vec<Vec<Fr>>>, pt: &[Fr], out: &mut Option<Joined>, bad: &mut Option<String>, seed: u64) -> Outcome {
    let (ka, kb, na, nb) = (a.c.len(), b.c.len(), a.nv(), b.nv());
    let mut cols = [a.cols(), b.cols()].concat();
    if let Some(x) = adv { cols.extend(x.iter().cloned()); }
    let has = adv.is_some();
    let ids = RefCell::new(vec![]);
    let snap = RefCell::new(None);
    let o = run_op::<P>(&cols, seed,
        |t, c| {
            let (ta, tb) = (table(c, 0, ka), table(c, ka + 1, kb));
            let r = if has { FinalJoinOneToManyIOP::<E, P>::prove_with_advice(t, &ta, &tb, ai, bi, &c[ka + kb + 2..].to_vec())? } else { FinalJoinOneToManyIOP::<E, P>::prove(t, &ta, &tb, ai, bi)? };
            *out = Some(Joined { cols: r.col_vals.iter().map(|c| c.evaluations()).collect(), sel: r.selector.evaluations() });
            super::compose::outputs::<P>(r.col_vals.iter().chain([&r.selector]));
            *ids.borrow_mut() = r.col_vals.iter().chain([&r.selector]).map(|c| (c.id, c.evaluate(pt).unwrap())).collect::<Vec<_>>();
            *snap.borrow_mut() = Some(t.deep_copy());
            Ok(())
        },
        |t, c| {
            let (ta, tb) = (tablec(c, 0, ka, na), tablec(c, ka + 1, kb, nb));
            let r = if has { FinalJoinOneToManyIOP::<E, P>::verify_with_advice(t, &ta, &tb, ai, bi, &c[ka + kb + 2..].to_vec())? } else { FinalJoinOneToManyIOP::<E, P>::verify(t, &ta, &tb, ai, bi)? };
            super::compose::outputs_v::<P>(r.col_vals.iter().chain([&r.selector]));
            let snap = snap.borrow();
            let Some(snap) = snap.as_ref() else { return Ok(()) };
            fill_queries(snap, t, pt);
            let got: Vec<_> = r.col_vals.iter().chain([&r.selector]).map(|c| (c.id, c.eval_virtual_comm(pt).unwrap())).collect();
            if got != *ids.borrow() { *bad = Some("the verifier's result table has other columns than the prover's".into()); }
            if r.num_vars() != nb { *bad = Some(format!("the verifier's result has {} variables", r.num_vars())); }
            Ok(())
        });
    o
}
use zk_sql::subroutines::PolynomialCommitmentScheme;
#[derive(Clone)]
struct J { a: T, b: T, ai: usize, bi: usize, adv: Vec<Vec<Fr>> }
fn gen_fj(g: &mut Gen) -> J {
    let (ka, kb) = (g.size(1, g.lor(3, 12)), g.size(1, g.lor(3, 12)));
    let (na, nb) = (g.nv(1, 3), g.nv(1, 3));
    let (ai, bi) = (g.size(0, ka - 1), g.size(0, kb - 1));
    let dom = *g.pick(&[4u64, 0]);
    let mut a = gen_table(g, ka, na, dom);
    let mut b = gen_table(g, kb, nb, dom);
    // unique keys on the one side; inactive rows may repeat them
    let mut keys: Vec<Fr> = (0..g.or(12, 1100)).map(|x| g.lift(x)).collect();
    g.shuffle(&mut keys);
    if g.chance(1, 4) { let i = g.size(0, 7); keys[i] = g.fr_random(); }
    for i in 0..a.len() { a.c[ai][i] = if a.s[i].is_zero() && g.bool() { *g.pick(&keys) } else { keys[i] }; }
    let act = a.active();
    if act.is_empty() && !g.chance(1, 8) { a.s[0] = Fr::one(); }
    let act = a.active();
    for i in 0..a.len() { if !a.s[i].is_zero() { a.c[ai][i] = keys[i]; } }
    for i in 0..b.len() {
        if act.is_empty() { if !g.chance(1, 6) { b.s[i] = Fr::zero(); } continue; }
        b.c[bi][i] = if b.s[i].is_zero() && g.bool() { *g.pick(&keys) } else { a.c[ai][*g.pick(&act)] };
    }
    J { a, b, ai, bi, adv: vec![] }
}
fn find(j: &J, key: &Fr) -> Option<usize> { j.a.active().into_iter().find(|i| j.a.c[j.ai][*i] == *key) }
fn c22_join(g: &mut Gen) -> R {
    let mut j = gen_fj(g);
    if g.chance(1, 3) { // a key without partner, in an active or inactive row
        let i = g.size(0, j.b.len() - 1);
        let free: Vec<Fr> = (0..g.or(20, 1200)).map(|x| g.lift(x)).filter(|k| find(&j, k).is_none()).collect();
        j.b.c[j.bi][i] = *g.pick(&free);
    }
    g.note(format!("a={} b={} on {}={}", j.a.show(), j.b.show(), j.ai, j.bi));
    let want = j.b.active().iter().all(|i| find(&j, &j.b.c[j.bi][*i]).is_some());
    let sc = pick_scheme(g, 12);
    let (mut out, mut bad) = (None, None);
    let pt: Vec<Fr> = (0..j.b.nv()).map(|_| g.fr_random()).collect();
    let o = with_scheme!(sc, run_fj, &j.a, &j.b, j.ai, j.bi, None, &pt, &mut out, &mut bad, 111);
    if let Some(m) = bad { return Err(m.into()); }
    expect(g, &o, want, "one-to-many join")?;
    if !want {
        if !matches!(o.verdict, Verdict::RejectByProver(_)) { return Err(format!("an unmatched key was not refused by the prover: {:?}", o.verdict).into()); }
        return Ok(true);
    }
    let out = out.unwrap();
    if out.cols.len() != j.a.c.len() + j.b.c.len() || out.sel != j.b.s { return Err(format!("joined table has {} columns, selector {}", out.cols.len(), shows(&out.sel)).into()); }
    for (i, c) in j.b.c.iter().enumerate() { if out.cols[j.a.c.len() + i] != *c { return Err(format!("column {i} of the many side changed").into()); } }
    for i in j.b.active() {
        let r = find(&j, &j.b.c[j.bi][i]).unwrap();
        for c in 0..j.a.c.len() { if out.cols[c][i] != j.a.c[c][r] { return Err(format!("row {i} column {c} of the joined table is {} instead of {}", show(&out.cols[c][i]), show(&j.a.c[c][r])).into()); } }
    }
    Ok(!j.b.active().is_empty())
}
fn c22_advice(g: &mut Gen) -> R {
    let mut j = gen_fj(g);
    // inactive rows of the transformed columns are arbitrary
    for c in 0..j.a.c.len() {
        let col = (0..j.b.len()).map(|i| match find(&j, &j.b.c[j.bi][i]) { Some(r) if !j.b.s[i].is_zero() => j.a.c[c][r], _ => if g.bool() { gen_val(g, 5) } else { Fr::zero() } }).collect();
        j.adv.push(col);
    }
    let act = j.b.active();
    match g.weighted(&[4, 3, 2, 1, 2]) {
        0 => {}
        4 => if !act.is_empty() { // the matches of two active rows exchanged
            let (p, q) = (*g.pick(&act), *g.pick(&act));
            for c in 0..j.a.c.len() { j.adv[c].swap(p, q); }
        },
        1 => { // rows matched to another row of the one side
            let i = if act.is_empty() { 0 } else { *g.pick(&act) };
            let r = g.size(0, j.a.len() - 1);
            let keep = g.bool();
            for c in 0..j.a.c.len() { if !(keep && c == j.ai) { j.adv[c][i] = j.a.c[c][r]; } }
        }
        2 => { let i = g.size(0, j.b.len() - 1); let c = g.size(0, j.a.c.len() - 1); j.adv[c][i] = if g.bool() { gen_val(g, 5) } else { j.adv[c][i] + Fr::one() }; }
        _ => { let i = g.size(0, j.b.len() - 1); let bi = j.bi; let x = g.below(g.or(12, 1100)); j.b.c[bi][i] = g.lift(x); }
    }
    state_fj(g, &j)
}
fn state_fj(g: &mut Gen, j: &J) -> R {
    let act = j.b.active();
    g.note(format!("a={} b={} on {}={} matched={}", j.a.show(), j.b.show(), j.ai, j.bi, j.adv.iter().map(|c| shows(c)).collect::<Vec<_>>().join(";")));
    let rows = j.a.rows();
    let act_a = j.a.active();
    let unique = act_a.iter().map(|i| j.a.c[j.ai][*i]).collect::<BTreeSet<_>>().len() == act_a.len();
    let want = unique && j.b.active().iter().all(|i| rows.contains(&j.adv.iter().map(|c| c[*i]).collect::<Vec<_>>()) && j.adv[j.ai][*i] == j.b.c[j.bi][*i]);
    let sc = pick_scheme(g, 12);
    let (mut out, mut bad) = (None, None);
    let pt: Vec<Fr> = (0..j.b.nv()).map(|_| g.fr_random()).collect();
    let o = with_scheme!(sc, run_fj, &j.a, &j.b, j.ai, j.bi, Some(&j.adv), &pt, &mut out, &mut bad, 112);
    if let Some(m) = bad { return Err(m.into()); }
    expect(g, &o, want, "one-to-many join with given matches")?;
    Ok(!act.is_empty())
}
/// given matches with a column too many or too few, or a join column out of range: the result would not be the join
fn c22_shape(g: &mut Gen) -> R {
    let mut j = gen_fj(g);
    let (ka, kb) = (j.a.c.len(), j.b.c.len());
    for c in 0..ka {
        let col = (0..j.b.len()).map(|i| find(&j, &j.b.c[j.bi][i]).map(|r| j.a.c[c][r]).unwrap_or(Fr::zero())).collect();
        j.adv.push(col);
    }
    let keys = j.b.c[j.bi].clone();
    let what = g.below(3);
    if what == 2 { // a join column the table does not have
        if g.chance(2, 3) { j.ai = ka + if g.chance(2, 3) { j.bi } else { g.size(0, kb) }; } else { j.bi = kb + g.size(0, 2); }
    } else if what == 1 || ka == 1 { // what follows moves by one or two places
        for _ in 0..g.size(1, 2) {
            let at = if g.chance(3, 4) { j.adv.len() } else { g.size(0, j.adv.len()) };
            let col = match g.below(3) { 0 => keys.clone(), 1 => vec![Fr::zero(); keys.len()], _ => (0..keys.len()).map(|_| gen_val(g, 5)).collect() };
            j.adv.insert(at, col);
        }
        if j.bi > 0 && g.bool() { j.b.c[j.bi - 1] = keys.clone(); }
    } else {
        let last = j.adv.pop().unwrap();
        if j.bi != 0 && g.chance(3, 4) { j.b.c[0] = last; }
        if j.bi + 1 < kb && g.chance(3, 4) { j.b.c[j.bi + 1] = keys.clone(); }
    }
    g.note(format!("a={} b={} on {}={} matched={}", j.a.show(), j.b.show(), j.ai, j.bi, j.adv.iter().map(|c| shows(c)).collect::<Vec<_>>().join(";")));
    let sc = pick_scheme(g, 12);
    let (mut out, mut bad) = (None, None);
    let pt: Vec<Fr> = (0..j.b.nv()).map(|_| g.fr_random()).collect();
    let o = with_scheme!(sc, run_fj, &j.a, &j.b, j.ai, j.bi, Some(&j.adv), &pt, &mut out, &mut bad, 114);
    if o.verdict.accepted() { return Err(format!("{} columns of matches for a table of {ka} columns accepted (join on {}={})", j.adv.len(), j.ai, j.bi).into()); }
    Ok(!j.b.active().is_empty())
}
/// the prover of the plain operator commits to other matches
fn c22_forge(g: &mut Gen) -> R {
    let j = gen_fj(g);
    let act = j.b.active();
    if act.is_empty() { return Ok(false); }
    let i = *g.pick(&act);
    let honest = find(&j, &j.b.c[j.bi][i]);
    let Some(h) = honest else { return Ok(false) };
    let r = g.size(0, j.a.len() - 1);
    let mode = g.below(3);
    let target: Vec<Fr> = (0..j.a.c.len()).map(|c| match mode { 0 => j.a.c[c][r], 1 => if c == j.ai { j.a.c[c][h] } else { j.a.c[c][r] }, _ => j.a.c[c][h] + if c == r % j.a.c.len() { Fr::one() } else { Fr::zero() } }).collect();
    let wrong = target != j.a.row(h);
    g.note(format!("a={} b={} on {}={} row {i} forged to {}", j.a.show(), j.b.show(), j.ai, j.bi, shows(&target)));
    let ka = j.a.c.len();
    let (mut out, mut bad) = (None, None);
    let pt: Vec<Fr> = (0..j.b.nv()).map(|_| g.fr_random()).collect();
    let o = dishonest(ka + j.b.c.len() + 2, move |k, mut w| { if k < ka { w[i] = target[k]; } w }, || run_fj::<MockPcs>(&j.a, &j.b, j.ai, j.bi, None, &pt, &mut out, &mut bad, 113));
    if o.verdict.accepted() != !wrong { return Err(format!("join with a forged match: verdict {:?}", o.verdict).into()); }
    Ok(wrong)
}

// ---------------------------------------------------------------- C23
#[derive(Clone)]
struct G { t: T, key: usize, sup: B, mult: Vec<Fr>, aggs: Vec<(usize, bool, Vec<Fr>)>, range: B } // bool: sum
fn run_gb<P: TestPcs>(x: &G, out: &mut Option<Joined>, bad: &mut Option<String>, seed: u64) -> Outcome {
    let k = x.t.c.len();
    let (nt, nr) = (x.t.nv(), x.range.nv());
    let mut cols = [x.t.cols(), x.sup.cols(), vec![x.mult.clone()], x.range.cols()].concat();
    cols.extend(x.aggs.iter().map(|a| a.2.clone()));
    let ty = |s: bool| if s { AggregationType::Sum } else { AggregationType::Count };
    let ids = RefCell::new(vec![]);
    let o = run_op::<P>(&cols, seed,
        |t, c| {
            let ins = GroupByInstructionWithProvingAdvice { grouping_cols: vec![x.key], support_cols: vec![c[k + 1].clone()], support_sel: c[k + 2].clone(), support_multiplicity: c[k + 3].clone(),
                agg_instr: x.aggs.iter().enumerate().map(|(i, a)| (a.0, ty(a.1), c[k + 6 + i].clone())).collect() };
            let r = GroupByIOP::<E, P>::prove_with_advice(t, &table(c, 0, k), &ins, &bag(c, k + 4))?;
            *out = Some(Joined { cols: r.col_vals.iter().map(|c| c.evaluations()).collect(), sel: r.selector.evaluations() });
            super::compose::outputs::<P>(r.col_vals.iter().chain([&r.selector]));
            *ids.borrow_mut() = r.col_vals.iter().chain([&r.selector]).map(|c| c.id).collect();
            Ok(())
        },
        |t, c| {
            let ins = GroupByInstructionWithVerifyingAdvice { grouping_cols: vec![x.key], support_cols: vec![c[k + 1].clone()], support_sel: c[k + 2].clone(), support_multiplicity: c[k + 3].clone(),
                agg_instr: x.aggs.iter().enumerate().map(|(i, a)| (a.0, ty(a.1), c[k + 6 + i].clone())).collect() };
            let r = GroupByIOP::<E, P>::verify_with_advice(t, &tablec(c, 0, k, nt), &ins, &bagc(c, k + 4, nr))?;
            super::compose::outputs_v::<P>(r.col_vals.iter().chain([&r.selector]));
            if ids.borrow().is_empty() { return Ok(()); }
            if r.col_vals.iter().chain([&r.selector]).map(|c| c.id).collect::<Vec<_>>() != *ids.borrow() { *bad = Some("the verifier's result table has other columns than the prover's".into()); }
            if r.num_vars() != nt { *bad = Some(format!("the verifier's result has {} variables", r.num_vars())); }
            Ok(())
        });
    o
}
fn gen_gb(g: &mut Gen) -> G {
    let k = g.size(1, g.lor(3, 12));
    let nv = g.nv(1, 3);
    let dom = *g.pick(&[3u64, 8, 16]);
    let dom = g.dom(dom);
    let key = g.size(0, k - 1);
    let mut t = gen_table(g, k, nv, 0);
    for j in 0..k { if j == key || g.bool() { for v in t.c[j].iter_mut() { *v = gen_val(g, dom); } } }
    gb_of(g, t, key)
}
/// correct grouping of a table
fn gb_of(g: &mut Gen, t: T, key: usize) -> G {
    let (k, nv) = (t.c.len(), t.nv());
    let key_bag = B { v: t.c[key].clone(), s: t.s.clone() };
    let vals: Vec<Fr> = key_bag.set().into_iter().collect();
    let sup = sorted_layout(&vals, nv);
    let w = key_bag.weights();
    let pad = |g: &mut Gen| if g.bool() { Fr::zero() } else { g.fr() };
    let mult = (0..sup.len()).map(|i| if sup.s[i].is_zero() { pad(g) } else { w[&sup.v[i]] }).collect();
    let mut aggs = vec![];
    for _ in 0..g.size(0, g.lor(3, 10)) {
        let col = g.size(0, k - 1);
        let sum = g.chance(2, 3);
        let tot: BTreeMap<Fr, Fr> = { let mut m = BTreeMap::new(); for i in 0..t.len() { *m.entry(t.c[key][i]).or_insert(Fr::zero()) += t.s[i] * t.c[col][i]; } m };
        let poly = (0..sup.len()).map(|i| if sup.s[i].is_zero() || !sum { pad(g) } else { tot[&sup.v[i]] }).collect();
        aggs.push((col, sum, poly));
    }
    G { t, key, sup, mult, aggs, range: range_col(g.or(4, 9) as usize) }
}
fn c23_groups(g: &mut Gen) -> R {
    let mut x = gen_gb(g);
    let n = x.sup.len();
    match g.weighted(&[10, 2, 2, 4, 2, 1]) {
        0 => {}
        5 => if x.sup.s.iter().any(|v| !v.is_zero()) { // a group activated k times with all its numbers divided by k
            let rows: Vec<usize> = (0..n).filter(|i| !x.sup.s[*i].is_zero()).collect();
            let k = if g.bool() { Fr::from(2u64) } else { g.fr_nz() };
            let d = k.inverse().unwrap();
            for i in if g.bool() { rows.clone() } else { vec![*g.pick(&rows)] } {
                x.sup.s[i] = k;
                x.mult[i] *= d;
                for a in x.aggs.iter_mut() { if a.1 { a.2[i] *= d; } }
            }
        },
        1 => { let d = g.or(16, 400); perturb(g, &mut x.sup, d); }
        2 => { let i = g.size(0, n - 1); x.mult[i] += if g.bool() { Fr::one() } else { g.fr_nz() }; }
        3 => if !x.aggs.is_empty() { let a = g.size(0, x.aggs.len() - 1); let i = g.size(0, n - 1); if g.bool() { let j = g.size(0, n - 1); x.aggs[a].2.swap(i, j); } else { x.aggs[a].2[i] += g.fr_nz(); } },
        _ => { let i = g.size(0, n - 1); let (k, d) = (x.key, Fr::from(g.below(g.or(16, 400)))); if g.bool() { x.t.c[k][i] = d; } else { x.t.s[i] = Fr::one() - x.t.s[i]; } }
    }
    state_gb(g, x)
}
fn state_gb(g: &mut Gen, x: G) -> R {
    let n = x.sup.len();
    g.note(format!("table={} by {} groups={} counts={} aggregates={}", x.t.show(), x.key, x.sup.show(), shows(&x.mult), x.aggs.iter().map(|a| format!("{}({})={}", if a.1 { "sum" } else { "count" }, a.0, shows(&a.2))).collect::<Vec<_>>().join(" ")));
    let key = B { v: x.t.c[x.key].clone(), s: x.t.s.clone() };
    let boolean = x.sup.s.iter().all(|v| v.is_zero() || v.is_one());
    let supp = boolean && key.weights() == weights(&x.sup.v, &x.sup.s, Some(&x.mult)) && (0..n).all(|i| x.sup.s[i].is_zero() || !x.mult[i].is_zero()) && strict_sorted(&x.sup, &x.range.v);
    let want = supp && x.aggs.iter().all(|a| !a.1 || weights(&key.v, &key.s, Some(&x.t.c[a.0])) == weights(&x.sup.v, &x.sup.s, Some(&a.2)));
    let sc = pick_scheme(g, 12);
    let (mut out, mut bad) = (None, None);
    let o = with_scheme!(sc, run_gb, &x, &mut out, &mut bad, 121);
    if let Some(m) = bad { return Err(m.into()); }
    expect(g, &o, want, "group by")?;
    if want {
        let out = out.unwrap();
        let mut e = vec![x.sup.v.clone()];
        e.extend(x.aggs.iter().map(|a| if a.1 { a.2.clone() } else { x.mult.clone() }));
        if out.sel != x.sup.s || out.cols.len() != e.len() { return Err(format!("result has {} columns instead of {}, selector {}", out.cols.len(), e.len(), shows(&out.sel)).into()); }
        for i in 0..e.len() { for r in 0..n { if !x.sup.s[r].is_zero() && out.cols[i][r] != e[i][r] { return Err(format!("result column {i} row {r} is {} instead of {}", show(&out.cols[i][r]), show(&e[i][r])).into()); } } }
    }
    Ok(key.set().len() > 1)
}
fn c23_args(g: &mut Gen) -> R {
    let mut x = gen_gb(g);
    let kind = g.below(3);
    let k = x.t.c.len();
    let over = k + g.size(0, 2);
    match kind { 0 => x.key = over, 1 => { let p = x.mult.clone(); x.aggs.push((over, g.bool(), p)); } _ => {} }
    g.note(format!("bad instruction {kind}: table={}", x.t.show()));
    let (pp, vp) = MockPcs::params();
    let cols = [x.t.cols(), x.sup.cols(), vec![x.mult.clone()], x.range.cols()].concat();
    let ty = |s: bool| if s { AggregationType::Sum } else { AggregationType::Count };
    let gc = if kind == 2 { vec![x.key, x.key] } else { vec![x.key] };
    let p_ok = guarded(|| {
        let mut p = PT::<MockPcs>::new_from_pcs_params(pp);
        let c: Vec<_> = cols.iter().map(|c| p.track_and_commit_poly(dmle(c)).unwrap()).collect();
        let ins = GroupByInstructionWithProvingAdvice { grouping_cols: gc.clone(), support_cols: vec![c[k + 1].clone()], support_sel: c[k + 2].clone(), support_multiplicity: c[k + 3].clone(), agg_instr: x.aggs.iter().map(|a| (a.0, ty(a.1), c[k + 3].clone())).collect() };
        GroupByIOP::<E, MockPcs>::prove_with_advice(&mut p, &table(&c, 0, k), &ins, &bag(&c, k + 4)).is_ok()
    });
    let v_ok = guarded(|| {
        let mut v = new_vt::<MockPcs>(vp);
        let c: Vec<_> = cols.iter().map(|c| v.track_mat_comm(MockPcs::commit(24, &dmle(c)).unwrap()).unwrap()).collect();
        let ins = GroupByInstructionWithVerifyingAdvice { grouping_cols: gc.clone(), support_cols: vec![c[k + 1].clone()], support_sel: c[k + 2].clone(), support_multiplicity: c[k + 3].clone(), agg_instr: x.aggs.iter().map(|a| (a.0, ty(a.1), c[k + 3].clone())).collect() };
        GroupByIOP::<E, MockPcs>::verify_with_advice(&mut v, &tablec(&c, 0, k, x.t.nv()), &ins, &bagc(&c, k + 4, 4)).is_ok()
    });
    if p_ok == Ok(true) || v_ok == Ok(true) { return Err(format!("an instruction outside the table was accepted: prover {p_ok:?} verifier {v_ok:?}").into()); }
    Ok(true)
}

pub fn props() -> Vec<Prop> {
    let ass = vec![
        "most cases run on an ideal commitment scheme (a commitment is the evaluation table); one case in about twelve runs on the repository's KZG scheme",
        "soundness errors of the underlying argument (about 2^-240 per case) are treated as impossible",
        "tables have 1 to 5 columns and 2 to 8 rows (products up to 64 rows)"];
    vec![
        Prop { id: "C20", rule: "pairs (a quarter of them triples) of tables of different shapes with committed, scaled, shifted and summed columns, compared cell by cell, at random points and on the verifier's side; true and false claims about products; non-trivial: tables of different sizes or more than two columns (claims: every case)",
            families: vec![fam("pairs", 9000, 300000, c20_pairs).dbg(5), fam("claims", 7000, 200000, c20_claims).dbg(5), fam("alias", 4000, 60000, c20_alias), fam("pairs-wide", 200, 15000, long!(c20_pairs)), fam("pairs-large", 80, 15000, large!(c20_pairs)), fam("claims-shared", 1500, 45000, crate::shared!(c20_claims))], assumptions: ass.clone() },
        Prop { id: "C21", rule: "tables of 1-4 columns, outputs drawn from the active input rows and spoiled in one row by a cell or row of another (or inactive) row, swapped cells, changes that cancel in the sum or under small coefficients; provers that replace an internal column; fingerprints against direct sums; non-trivial: more than one column and an active output row",
            families: vec![fam("rows", 9000, 300000, c21_rows).dbg(5), fam("forged", 6000, 150000, c21_forge), fam("fingerprint", 7000, 150000, c21_agg), fam("rows-forging", 2000, 60000, forged!(c21_rows)), fam("widths", 600, 20000, c21_width), fam("rows-wide", 240, 12000, long!(c21_rows)), fam("fingerprint-wide", 240, 12000, long!(c21_agg)), fam("adaptive", 2500, 80000, c21_adaptive), fam("rows-limbs", 600, 60000, limbs!(c21_rows)), fam("rows-large", 480, 30000, large!(c21_rows)), fam("fingerprint-large", 480, 30000, large!(c21_agg)), fam("rows-shared", 1500, 45000, crate::shared!(c21_rows))], assumptions: ass.clone() },
        Prop { id: "C22", rule: "one side with unique active keys (repeated in inactive rows), many side with keys drawn from them, unmatched keys in active or inactive rows, given matches to other rows, single wrong cells; non-trivial: the many side has an active row (forgeries: a wrong match)",
            families: vec![fam("join", 8000, 200000, c22_join).dbg(8), fam("advice", 7000, 200000, c22_advice).dbg(8), fam("forged", 4000, 120000, c22_forge), fam("advice-forging", 2500, 75000, forged!(c22_advice)), fam("shapes", 600, 20000, c22_shape), fam("join-wide", 200, 12000, long!(c22_join)), fam("advice-wide", 200, 12000, long!(c22_advice)), fam("adaptive", 2500, 80000, c22_adaptive), fam("join-limbs", 1500, 50000, limbs!(c22_join)).dbg(8), fam("advice-limbs", 1500, 50000, limbs!(c22_advice)), fam("join-large", 400, 25000, large!(c22_join)), fam("advice-large", 400, 25000, large!(c22_advice)), fam("join-shared", 1200, 36000, crate::shared!(c22_join)), fam("advice-shared", 1200, 36000, crate::shared!(c22_advice))], assumptions: ass.clone() },
        Prop { id: "C23", rule: "tables with a small-domain group column, 0-3 count and sum aggregates (also of the group column), wrong groups, counts, sums or input rows; instructions outside the table; non-trivial: at least two groups",
            families: vec![fam("groups", 7000, 200000, c23_groups).dbg(5), fam("arguments", 600, 5000, c23_args), fam("groups-forging", 2000, 60000, forged!(c23_groups)), fam("groups-wide", 200, 12000, long!(c23_groups)), fam("groups-large", 400, 25000, large!(c23_groups)), fam("groups-huge", 3, 200, huge!(c23_groups)), fam("groups-shared", 1500, 45000, crate::shared!(c23_groups))], assumptions: ass },
    ]
}

pub fn parts() -> Vec<super::compose::Part> {
    vec![("cross product", c20_claims), ("rows", c21_rows), ("join", c22_join), ("join with advice", c22_advice), ("group by", c23_groups)]
}
/// A chain of joins, groupings and checks, each on the table that the one before returns.
pub fn query(g: &mut Gen, may_fail: &mut bool) -> Vec<super::compose::Item> {
    use super::compose::Item;
    let mut items: Vec<Item> = vec![];
    let k = g.size(1, 3);
    let nv = if g.large { g.size(5, 8) } else { g.size(1, 3) };
    let mut t = gen_table(g, k, nv, 8);
    let mut key: Option<usize> = None; // a column whose active values are distinct
    for _ in 0..g.size(2, g.lor(4, 10)) {
        let spoil = *may_fail && g.chance(1, 4);
        match g.below(6) {
            0 | 1 => { // the table is the many side of a join with a dimension table
                let bi = g.size(0, t.c.len() - 1);
                let mut keys: Vec<Fr> = t.active().into_iter().map(|i| t.c[bi][i]).collect::<BTreeSet<_>>().into_iter().collect();
                if keys.len() > 1 << 8 || t.c.len() > 8 { continue; }
                let more = gen_val(g, 12);
                if !keys.contains(&more) { keys.push(more); }
                g.shuffle(&mut keys);
                let na = min_nv(keys.len()) + g.size(0, 1);
                let ka = g.size(1, 2);
                let ai = g.size(0, ka - 1);
                let mut a = gen_table(g, ka, na, 8);
                for i in 0..a.len() { if i < keys.len() { a.c[ai][i] = keys[i]; a.s[i] = Fr::one(); } else { a.s[i] = Fr::zero(); } }
                let mut j = J { a, b: t.clone(), ai, bi, adv: vec![] };
                join_step(g, &mut j, spoil, may_fail, &mut t, &mut items);
                key = None;
            }
            2 => { // the table is the one side: a column must be unique
                let Some(ai) = key else { continue };
                let act = t.active();
                if act.is_empty() || t.c.len() > 6 { continue; }
                let (kb, nb) = (g.size(1, 2), if g.large { g.size(5, 8) } else { g.size(1, 3) });
                let bi = g.size(0, kb - 1);
                let mut b = gen_table(g, kb, nb, 8);
                for i in 0..b.len() { b.c[bi][i] = t.c[ai][*g.pick(&act)]; }
                let mut j = J { a: t.clone(), b, ai, bi, adv: vec![] };
                join_step(g, &mut j, spoil, may_fail, &mut t, &mut items);
                key = None;
            }
            3 | 4 => { // group
                let col = g.size(0, t.c.len() - 1);
                let mut x = gb_of(g, t.clone(), col);
                if spoil { *may_fail = false; let n = x.sup.len(); let i = g.size(0, n - 1); match g.below(3) { 0 => x.mult[i] += Fr::one(), 1 if !x.aggs.is_empty() => { let a = g.size(0, x.aggs.len() - 1); x.aggs[a].2[i] += g.fr_nz(); } _ => { let d = 16; perturb(g, &mut x.sup, d); } } }
                t = T { c: { let mut c = vec![x.sup.v.clone()]; c.extend(x.aggs.iter().map(|a| if a.1 { a.2.clone() } else { x.mult.clone() })); c }, s: x.sup.s.clone() };
                key = Some(0);
                items.push(Item { run: Box::new(move |g| state_gb(g, x.clone())), choices: vec![], name: "group by" });
            }
            _ => { // the rows of another table are among the rows of this one
                let act = t.active();
                if act.is_empty() { continue; }
                let n = g.size(1, 3);
                let mut b = gen_table(g, t.c.len(), n, 8);
                for i in 0..b.len() { let r = t.row(*g.pick(&act)); set_row(&mut b, i, &r); }
                if spoil { *may_fail = false; let i = g.size(0, b.len() - 1); let c = g.size(0, b.c.len() - 1); b.c[c][i] += g.fr_nz(); b.s[i] = Fr::one(); }
                let a = t.clone();
                items.push(Item { run: Box::new(move |g| state_it(g, &a, &b)), choices: vec![], name: "rows" });
            }
        }
    }
    items
}
fn join_step(g: &mut Gen, j: &mut J, spoil: bool, may_fail: &mut bool, t: &mut T, items: &mut Vec<super::compose::Item>) {
    let rows: Vec<Option<usize>> = (0..j.b.len()).map(|i| find(j, &j.b.c[j.bi][i])).collect();
    for c in 0..j.a.c.len() { let col = rows.iter().map(|r| match r { Some(r) => j.a.c[c][*r], None => if g.bool() { Fr::zero() } else { gen_val(g, 8) } }).collect(); j.adv.push(col); }
    if spoil { *may_fail = false; let i = g.size(0, j.b.len() - 1); let c = g.size(0, j.adv.len() - 1); if g.bool() { j.adv[c][i] += g.fr_nz(); } else { let r = *g.pick(&j.a.active()); j.a.s[r] = Fr::zero(); } }
    *t = T { c: j.adv.iter().chain(&j.b.c).cloned().collect(), s: j.b.s.clone() };
    let j = j.clone();
    items.push(super::compose::Item { run: Box::new(move |g| state_fj(g, &j)), choices: vec![], name: "join with advice" });
}
