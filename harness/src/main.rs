use mon::*;

const IDS: [&str; 27] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P23",
    "P24", "P25", "P26", "P27", "P28", "P29",
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|x| x.as_str()) != Some("check") || a.len() < 3 {
        eprintln!("usage: mon check ID [--seed N] [--thorough] [--evidence DIR] [--tight] [--job J]");
        std::process::exit(3);
    }
    let id = match IDS.iter().find(|x| **x == a[2]) {
        Some(x) => x,
        None => {
            eprintln!("unknown property {}", a[2]);
            std::process::exit(3);
        }
    };
    let seed = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = a.iter().any(|x| x == "--thorough") || std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let ev = get("--evidence").unwrap_or("/verif/evidence".into());
    let mode = if a.iter().any(|x| x == "--tight") { svm::Mode::Tight } else { svm::Mode::Direct };
    let only = get("--job").and_then(|x| x.parse().ok());
    std::process::exit(checks::check(id, seed, thorough, &ev, mode, only));
}
