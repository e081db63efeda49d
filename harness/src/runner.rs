//! Runs the families of a property over generated cases, shrinks failures, writes
//! the replay file and the evidence file.
use crate::gen::{hash_str, mix, shrink, Gen};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    /// signature of a known finding this failure is an instance of
    pub sig: Option<&'static str>,
    pub msg: String,
}
impl From<String> for Fail { fn from(msg: String) -> Self { Fail { sig: None, msg } } }
impl From<&str> for Fail { fn from(msg: &str) -> Self { Fail { sig: None, msg: msg.to_string() } } }
/// Ok(true): the case was non-trivial by the property's rule.
pub type R = Result<bool, Fail>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Build { Release, Debug }
pub fn this_build() -> Build { if cfg!(debug_assertions) { Build::Debug } else { Build::Release } }

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Gen) -> R,
    /// share of cases also run in the build with debug assertions, in percent
    pub dbg_pct: u64,
}
pub fn fam(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Gen) -> R) -> Family {
    Family { name, quick, thorough, run, dbg_pct: 0 }
}
/// the same family over sizes in the hundreds of rows
#[macro_export]
macro_rules! large { ($f:ident) => { |g: &mut $crate::gen::Gen| { g.large = true; $f(g) } } }
/// the same family over some 2^16 rows
#[macro_export]
macro_rules! huge { ($f:ident) => { |g: &mut $crate::gen::Gen| { g.large = true; g.huge = true; $f(g) } } }
/// the same family over long histories or many items
#[macro_export]
macro_rules! long { ($f:ident) => { |g: &mut $crate::gen::Gen| { g.long = true; $f(g) } } }
/// the same family over values that differ in few limbs of their representation
#[macro_export]
macro_rules! limbs { ($f:ident) => { |g: &mut $crate::gen::Gen| { g.limb = 1 + g.below(4) as u8; $f(g) } } }
/// the same statements over equal columns, which are tracked once
#[macro_export]
macro_rules! shared { ($f:ident) => { |g: &mut $crate::gen::Gen| { g.twins = true; $crate::props::compose::single(g, $f) } } }
/// the same statements, with a prover that changes the columns the operator commits to internally
#[macro_export]
macro_rules! forged { ($f:ident) => { |g: &mut $crate::gen::Gen| {
    let plan = $crate::pipe::draw_forgery(g);
    $crate::pipe::set_forgery(Some(plan));
    let r = $crate::runner::guarded(|| $f(g));
    $crate::pipe::set_forgery(None);
    match r {
        Err(_) => Ok(false),
        Ok(Err($crate::runner::Fail { sig: Some("FORGED-TRUE"), .. })) => Ok(false),
        Ok(Err($crate::runner::Fail { sig: Some("FORGED-FALSE"), .. })) => Ok(true),
        Ok(Err($crate::runner::Fail { sig: Some(""), msg })) => Err(msg.into()),
        Ok(_) => Ok(false),
    }
} } }
impl Family { pub fn dbg(mut self, pct: u64) -> Self { self.dbg_pct = pct; self } }

pub struct Prop { pub id: &'static str, pub rule: &'static str, pub families: Vec<Family>, pub assumptions: Vec<&'static str> }

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {}", msg.chars().take(400).collect::<String>()));
    }));
}
/// Runs code of the repository that may panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(f: &Family, g: &mut Gen) -> R {
    let r = match guarded(|| (f.run)(g)) { Ok(r) => r, Err(p) => Err(Fail::from(p)) };
    crate::pipe::free_leftovers();
    r
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats { evals: u64, nontrivial: HashSet<u64>, tags: BTreeMap<&'static str, u64>, samples: Vec<String>, known: BTreeMap<&'static str, u64> }

pub fn verif_dir() -> String { std::env::var("ZKV_DIR").unwrap_or_else(|_| "/verif".into()) }

/// lines `known: property=<id> sig=<sig> <text>` / `fixed: ...`
fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let txt = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif_dir())).unwrap_or_default();
    for l in txt.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
            let s = it.next().unwrap_or("").strip_prefix("sig=").unwrap_or("");
            if p == prop { m.insert(s.to_string(), it.next().unwrap_or("").to_string()); }
        }
    }
    m
}

pub fn case_seed(seed: u64, prop: &str, family: &str, idx: u64) -> u64 {
    mix(mix(mix(seed, hash_str(prop)), hash_str(family)), idx)
}

struct Found { family: usize, idx: u64, choices: Vec<u64>, msg: String }

fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(64 << 20).build().unwrap().install(f)
}

pub fn check(prop: &Prop, tier: &str, seed: u64, only: Option<&str>) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let limit = if tier == "quick" { 860 } else { 6 * 3600 };
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(limit));
        println!("ERROR: time limit of {limit}s reached, no verdict");
        std::process::exit(3);
    });
    let known = known_findings(prop.id);
    let pct: u64 = std::env::var("ZKV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let mut stats: Vec<Stats> = vec![];
    let mut found: Option<Found> = None;
    for (fi, f) in prop.families.iter().enumerate() {
        let mut n = if tier == "quick" { f.quick } else { f.thorough } * pct / 100;
        if this_build() == Build::Debug { n = n * f.dbg_pct / 100; }
        if let Some(o) = only { if o != f.name { n = 0; } }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let shared: Mutex<(Stats, Option<Found>)> = Mutex::new((Stats::default(), None));
        let tf = Instant::now();
        let workers = 8.min(n.max(1)) as usize;
        std::thread::scope(|s| {
            for _ in 0..workers {
                let (next, stop, shared, known) = (&next, &stop, &shared, &known);
                s.spawn(move || in_pool(1, move || loop {
                    let idx = next.fetch_add(1, Ordering::Relaxed);
                    if idx >= n || stop.load(Ordering::Relaxed) { break; }
                    let mut g = Gen::random(case_seed(seed, prop.id, f.name, idx));
                    let r = run_case(f, &mut g);
                    let mut sh = shared.lock().unwrap();
                    sh.0.evals += 1;
                    for t in &g.tags { *sh.0.tags.entry(t).or_insert(0) += 1; }
                    match r {
                        Ok(nt) => if nt {
                            let h = g.used.iter().fold(hash_str(&g.log), |a, b| mix(a, *b));
                            sh.0.nontrivial.insert(h);
                            if sh.0.samples.len() < 2 && !g.log.is_empty() { let l: String = g.log.chars().take(500).collect(); sh.0.samples.push(format!("{}: {}", f.name, l)); }
                        },
                        Err(e) => {
                            if let Some(sig) = e.sig { if known.contains_key(sig) { *sh.0.known.entry(sig).or_insert(0) += 1; continue; } }
                            if sh.1.as_ref().map_or(true, |x| idx < x.idx) {
                                sh.1 = Some(Found { family: fi, idx, choices: g.used.clone(), msg: e.msg });
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }));
            }
        });
        let (st, fo) = shared.into_inner().unwrap();
        if n > 0 {
            let tags: Vec<String> = st.tags.iter().map(|(k, v)| format!("{k}={v}")).collect();
            println!("  {}/{}: {} cases, {} distinct non-trivial, {:.1}s [{}]", prop.id, f.name, st.evals, st.nontrivial.len(), tf.elapsed().as_secs_f64(), tags.join(" "));
        }
        stats.push(st);
        if fo.is_some() { found = fo; break; }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut failmsg = String::new();
    if let Some(fo) = found {
        let f = &prop.families[fo.family];
        // confirm from the choice list alone, then shrink
        let rerun = |c: &[u64]| -> Option<(Vec<u64>, String, String)> {
            let c = c.to_vec();
            let f = f.clone();
            let known = known.clone();
            in_pool(1, move || {
                let mut g = Gen::replay(c);
                match run_case(&f, &mut g) {
                    Err(e) if !e.sig.map_or(false, |s| known.contains_key(s)) => Some((g.used.clone(), e.msg, g.log.clone())),
                    _ => None,
                }
            })
        };
        let (choices, msg, log, confirmed) = match rerun(&fo.choices) {
            None => (fo.choices.clone(), fo.msg.clone(), String::new(), false),
            Some(_) => {
                let best = shrink(fo.choices.clone(), 600, Duration::from_secs(40), |c| rerun(c).map(|x| x.0));
                let (_, m, l) = rerun(&best).unwrap_or((vec![], fo.msg.clone(), String::new()));
                (best, m, l, true)
            }
        };
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.replay", prop.id, f.name, seed);
        let txt = format!("property={}\nfamily={}\nbuild={:?}\nseed={}\nindex={}\nconfirmed={}\nchoices={}\nmessage={}\ncase={}\n", prop.id, f.name, this_build(), seed, fo.idx, confirmed,
            choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","), msg.replace('\n', " "), log.replace('\n', " "));
        let _ = std::fs::write(&path, txt);
        println!("  failing case (family {}, index {}): {}", f.name, fo.idx, msg);
        println!("  case: {log}");
        if !confirmed { println!("  note: the failure did not repeat from its choice list (first message: {})", fo.msg); }
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
        violations = 1;
        failmsg = msg;
    }
    for (sig, text) in &known {
        let hits: u64 = stats.iter().map(|s| s.known.get(sig.as_str()).copied().unwrap_or(0)).sum();
        if hits > 0 { println!("KNOWN-FINDING: property={} {} ({} cases)", prop.id, text, hits); }
    }
    write_evidence(prop, tier, seed, &stats, t0.elapsed().as_secs_f64(), violations, &failmsg);
    code
}

fn write_evidence(prop: &Prop, tier: &str, seed: u64, stats: &[Stats], wall: f64, violations: u64, failmsg: &str) {
    let evals: u64 = stats.iter().map(|s| s.evals).sum();
    let nt: usize = stats.iter().map(|s| s.nontrivial.len()).sum();
    let mut fams = vec![];
    for (f, s) in prop.families.iter().zip(stats) {
        if s.evals == 0 { continue; }
        let tags: Vec<String> = s.tags.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        fams.push(format!("{}:{{\"cases\":{},\"distinct_nontrivial\":{},\"classes\":{{{}}}}}", esc(f.name), s.evals, s.nontrivial.len(), tags.join(",")));
    }
    let samples: Vec<String> = stats.iter().flat_map(|s| s.samples.iter().map(|x| esc(x))).take(24).collect();
    let known: u64 = stats.iter().map(|s| s.known.values().sum::<u64>()).sum();
    let ass: Vec<String> = prop.assumptions.iter().map(|s| esc(s)).collect();
    let rule = if prop.families.iter().any(|f| f.name.ends_with("-shared")) { format!("{}; in -shared families: at least one column tracked once for two uses", prop.rule) } else { prop.rule.to_string() };
    let json = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"build\":{},\"families\":{{{}}},\"known_finding_cases\":{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}{}}}\n",
        esc(prop.id), esc(tier), seed, evals, nt, esc(&rule), samples.join(","), esc(&format!("{:?}", this_build())), fams.join(","), known, ass.join(","), wall, violations,
        if failmsg.is_empty() { String::new() } else { format!(",\"failure\":{}", esc(failmsg)) });
    let part = std::env::var("ZKV_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", verif_dir(), prop.id));
    if let Some(p) = std::path::Path::new(&part).parent() { let _ = std::fs::create_dir_all(p); }
    if let Err(e) = std::fs::write(&part, json) { println!("ERROR: cannot write {part}: {e}"); std::process::exit(3); }
}

pub fn replay(prop: &Prop, family: &str, choices: Vec<u64>) -> i32 {
    install_panic_hook();
    let f = prop.families.iter().find(|f| f.name == family).expect("family").clone();
    in_pool(1, move || {
        let mut g = Gen::replay(choices);
        let r = run_case(&f, &mut g);
        println!("case: {}", g.log);
        match r { Ok(_) => { println!("holds"); 0 } Err(e) => { println!("FAILS: {}", e.msg); 1 } }
    })
}
