mod engine;
#[macro_use]
mod macros;
mod reference;
mod util_checks;
mod mat_checks;
mod mem_checks;
mod num_checks;
mod alg_checks;
mod topo_checks;
mod cubical_checks;
mod graph_checks;
mod analysis_checks;
mod geom_checks;

use engine::*;
use std::path::{Path, PathBuf};

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(util_checks::props());
    v.extend(mat_checks::props());
    v.extend(mem_checks::props());
    v.extend(num_checks::props());
    v.extend(alg_checks::props());
    v.extend(topo_checks::props());
    v.extend(graph_checks::props());
    v.extend(cubical_checks::props());
    v.extend(geom_checks::props());
    v.extend(analysis_checks::props());
    v
}

fn find<'a>(ps: &'a [Prop], id: &str) -> &'a Prop {
    ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property {id}");
        std::process::exit(3)
    })
}
fn find_sub<'a>(p: &'a Prop, s: &str) -> &'a Sub {
    p.subs.iter().find(|x| x.name == s).unwrap_or_else(|| {
        eprintln!("no such sub {s}");
        std::process::exit(3)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ps = props();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = find(&ps, &a[2]);
            let s = *find_sub(p, &a[3]);
            let (st, en, seed) = (a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
            worker(p, &s, st, en, seed, Path::new(&a[7]));
        }
        Some("single") => {
            let p = find(&ps, &a[2]);
            let tape = std::fs::read_to_string(&a[4]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
            std::process::exit(single(p, find_sub(p, &a[3]), tape, Path::new(&a[5])));
        }
        Some("stream") => {
            let p = find(&ps, &a[2]);
            stream(p, find_sub(p, &a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), Path::new(&a[6]));
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let p = find(&ps, &get("property "));
            let tape = get("tape ").split_whitespace().map(|x| x.parse().unwrap()).collect();
            let out = std::env::temp_dir().join(format!("vp-replay-{}", std::process::id()));
            let c = single(p, find_sub(p, &get("sub ")), tape, &out);
            println!("{}", std::fs::read_to_string(&out).unwrap_or_default());
            let _ = std::fs::remove_file(&out);
            std::process::exit(c);
        }
        Some("list") => {
            for p in &ps {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        Some("check") => {
            let verif = PathBuf::from(std::env::var("VP_DIR").unwrap_or_else(|_| "/verif".into()));
            let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "quick" || t == "thorough").unwrap_or_else(|| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let known = read_known(&verif.join("known_findings.txt"));
            std::process::exit(check(find(&ps, &a[2]), &tier, seed, &verif, &known));
        }
        _ => {
            eprintln!("usage: vp check ID [tier] | replay FILE | list");
            std::process::exit(3);
        }
    }
}
