mod call;
mod js;
mod rust;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = a.iter().any(|x| x == "--thorough") || std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
    let ev = get("--evidence").unwrap_or("/verif/evidence".into());
    let only = get("--job").and_then(|x| x.parse().ok());
    let code = match (a.get(1).map(|x| x.as_str()), a.get(2).map(|x| x.as_str())) {
        (Some("check"), Some("P21")) => rust::check(seed, thorough, &ev, only),
        (Some("check"), Some("P22")) => js::check(seed, thorough, &ev, only, &get("--js").expect("--js BUNDLE")),
        _ => {
            eprintln!("usage: clients check P21|P22 [--seed N] [--thorough] [--evidence DIR] [--job J] [--js BUNDLE]");
            3
        }
    };
    std::process::exit(code);
}
