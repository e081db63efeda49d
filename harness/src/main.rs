mod gen;
mod pcs;
mod pipe;
mod props;
mod runner;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => { for p in props::all() { println!("{}", p.id); } 0 }
        Some("has-debug") => { let p = props::all().into_iter().find(|p| p.id == a[2]).expect("unknown property"); if p.families.iter().any(|f| f.dbg_pct > 0) { 0 } else { 1 } }
        Some("check") => {
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let p = props::all().into_iter().find(|p| p.id == a[2]).expect("unknown property");
            runner::check(&p, if tier == "thorough" { "thorough" } else { "quick" }, seed, a.get(4).map(|s| s.as_str()))
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            let p = props::all().into_iter().find(|p| p.id == get("property")).expect("unknown property");
            let ch = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            runner::replay(&p, &get("family"), ch)
        }
        _ => { eprintln!("usage: zkv check <ID> [quick|thorough] [family] | replay <file> | list"); 2 }
    };
    std::process::exit(code);
}
