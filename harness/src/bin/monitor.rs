//! monitor <ID> quick|thorough     decide one property
//! monitor replay <file>           re-run the case a replay file names
//! monitor selftest                check the reference implementations against published values
use monitor::fw::{self, Tier};
use monitor::props;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["replay", file] => {
            let s = std::fs::read_to_string(file).expect("replay file");
            let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or_else(|| panic!("no {k} in {file}")).to_string();
            let all = props::all();
            let p = all.iter().find(|p| p.id == get("property")).expect("unknown property");
            if let Some(v) = s.lines().find_map(|l| l.strip_prefix("literals=")) {
                std::env::set_var("VERIF_LITERALS", v);
            }
            let tier = if get("tier") == "Thorough" { Tier::Thorough } else { Tier::Quick };
            fw::replay(p, &get("suite"), get("index").parse().expect("index"), get("seed").parse().expect("seed"), tier)
        }
        ["selftest"] => monitor::refm::selftest(),
        ["literals"] => {
            monitor::dict::print_literals();
            0
        }
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        [id, tier] => {
            let all = props::all();
            match all.iter().find(|p| p.id == *id) {
                Some(p) => fw::run(p, if *tier == "thorough" { Tier::Thorough } else { Tier::Quick }, seed, &root, ""),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: monitor <ID> quick|thorough | replay <file> | selftest | list");
            2
        }
    };
    std::process::exit(code);
}
