use crate::runner::Prop;
pub mod common;
mod ops_bag;
mod ops_set;
mod ops_table;
mod advice;
pub mod compose;
mod arith;
mod sumcheck;
mod kzg;
mod hist;
mod trackers;
mod transcript;
pub mod malformed;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ops_bag::props());
    v.extend(ops_set::props());
    v.extend(ops_table::props());
    v.extend(advice::props());
    v.extend(arith::props());
    v.extend(sumcheck::props());
    v.extend(kzg::props());
    v.extend(trackers::props());
    v.extend(transcript::props());
    v.extend(compose::props());
    v.extend(malformed::props());
    // quick counts are scaled to about half a minute of search per property
    for p in v.iter_mut() {
        let k = match p.id { "C01" => 12.0, "C02" => 25.0, "C03" => 8.0, "C04" => 4.0, "C05" => 5.0, "C06" => 0.6, "C07" => 2.0, "C08" => 3.0, "C09" => 12.0, "C10" => 15.0, "C11" => 3.0, "C12" => 3.0, "C13" => 2.5, "C14" => 4.0, "C15" => 3.0, "C16" => 1.3, "C19" => 0.7, "C20" => 8.0, "C21" => 8.0, "C22" => 4.0, "C23" => 3.0, "C24" => 4.0, "C25" => 2.5, _ => 1.0 };
        for f in p.families.iter_mut() { f.quick = (f.quick as f64 * k) as u64; }
    }
    v
}
