mod browser;
mod choice;
mod host;
mod http;
mod run;
mod s_chat;
mod s_client;
mod s_http;
mod s_list;
mod s_pair;
mod s_lv;
mod s_ws;
mod util;
mod world;
mod ws;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let root = PathBuf::from(opt("--root").unwrap_or_else(|| "/verif".into()));
    let seed: u64 = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut props = vec![];
    props.extend(s_http::props());
    props.extend(s_client::props());
    props.extend(s_pair::props());
    props.extend(s_ws::props());
    props.extend(s_list::props());
    props.extend(s_lv::props());
    props.extend(s_chat::props());
    let threads = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let code = match cmd {
        "run" => {
            let id = &args[2];
            let p = find(id).expect("no such property");
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let thorough = tier == "thorough";
            let o = run::Opts {
                runs: opt("--runs")
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(if thorough { p.quick_runs * 40 } else { p.quick_runs }),
                secs: opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 120 }),
                tier,
                seed,
                threads,
                start: opt("--start").and_then(|s| s.parse().ok()).unwrap_or(0),
            };
            run::explore(p, &root, &o)
        }
        "replay" => run::replay(&props, &args[2], &root),
        "determinism" => {
            let n = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
            run::determinism(find(&args[2]).expect("no such property"), &root, seed, n, threads)
        }
        _ => {
            eprintln!("usage: sim run PROP | replay FILE | determinism PROP");
            2
        }
    };
    std::process::exit(code);
}
