mod chain;
mod engine;
mod fixture;
mod inst;
mod ledger;
mod model;
mod neutral;
mod obs;
mod ops;
mod price;
mod props;
mod rng;
mod run;
mod store;
mod supervise;

fn main() {
    if std::env::var("OBMON_TRACE").is_err() {
        // contract panics are caught and judged; their messages would only drown the report
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> { args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned()) };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = opt("--prop").unwrap_or_default();
            match props::by_id(&id) {
                None => {
                    println!("unknown property {id}");
                    3
                }
                Some(p) => {
                    let a = run::Args {
                        tier: opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into()),
                        seed: opt("--seed")
                            .or_else(|| std::env::var("VERIF_SEED").ok())
                            .and_then(|s| s.parse().ok())
                            .unwrap_or(1),
                        wall: opt("--wall").and_then(|s| s.parse().ok()),
                        count: opt("--count").and_then(|s| s.parse().ok()),
                        evidence: opt("--evidence").unwrap_or_else(|| format!("/verif/evidence/{id}.json")),
                        replay_dir: opt("--replays").unwrap_or_else(|| "/verif/evidence/replays".into()),
                        threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
                            std::thread::available_parallelism().map_or(4, |n| n.get())
                        }),
                    };
                    if std::env::var(supervise::DIR_VAR).is_ok() {
                        run::check(p, &a)
                    } else {
                        supervise::check(p, &a, &args[1..])
                    }
                }
            }
        }
        Some("replay") => {
            let f = args.get(2).cloned().unwrap_or_default();
            match std::fs::read_to_string(&f)
                .map_err(|e| e.to_string())
                .and_then(|s| serde_json::from_str::<run::Case>(&s).map_err(|e| e.to_string()))
            {
                Ok(c) => match props::by_id(&c.property) {
                    Some(_) if std::env::var(supervise::DIR_VAR).is_err() => supervise::replay(&c, &args[1..]),
                    Some(p) => run::replay(p, &c),
                    None => 3,
                },
                Err(e) => {
                    println!("cannot read {f}: {e}");
                    3
                }
            }
        }
        Some("one") => {
            let n = |k: &str| opt(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            match props::by_id(&opt("--prop").unwrap_or_default()) {
                Some(p) => {
                    run::single(p, n("--case-seed"), n("--index"), &opt("--tier").unwrap_or_default());
                    0
                }
                None => 3,
            }
        }
        Some("fixture") => {
            // obmon fixture <seed> <file> [kind]: store a book of the current build (used once, on the pinned commit)
            let seed = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
            let file = args.get(3).cloned().unwrap_or_default();
            match run::make_fixture(seed, args.get(4).map(|s| s.as_str()).unwrap_or_default()) {
                Ok(s) => {
                    std::fs::write(&file, s).map_or(3, |_| 0)
                }
                Err(e) => {
                    println!("{e}");
                    3
                }
            }
        }
        Some("list") => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: obmon check --prop ID [--tier quick|thorough] [--seed N] | replay FILE | list");
            3
        }
    };
    std::process::exit(code);
}
