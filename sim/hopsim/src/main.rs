mod alloc;
mod cli;
mod conf;
mod client;
mod endure;
mod engine;
mod fw;
mod gen;
mod hx;
mod instances;
mod lin;
mod model;
mod netx;
mod registry;
mod server;
mod timer;
mod timer_shim;
mod tsan;
mod wire;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

static FAMILIES: &[&dyn fw::Family] = &[&engine::Concurrent, &engine::Sequential, &wire::Requests, &wire::Responses, &server::Server, &client::Local, &client::Twins, &client::Networked, &client::Peer, &registry::Sessions, &registry::Subscriptions, &registry::MetricsFam, &timer::Clocked, &cli::Terminal, &cli::Remote, &endure::Endurance, &instances::Instances, &conf::Configured];

pub fn family(name: &str) -> Option<&'static dyn fw::Family> {
    FAMILIES.iter().copied().find(|f| f.name() == name)
}

/// Scenario families that decide a property, with weights.
pub fn families(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "C01" => vec![("engine", 1)],
        "C02" => vec![("engine", 1)],
        "C03" => vec![("history", 4), ("engine", 1)],
        "C04" => vec![("engine", 1)],
        "C05" => vec![("request link", 1)],
        "C06" => vec![("response link", 1)],
        "C07" => vec![("server", 1)],
        "C08" => vec![("server", 1)],
        "C09" => vec![("networked clients", 3), ("misbehaving server", 2)],
        "C10" => vec![("networked clients", 1)],
        "C11" => vec![("twins", 1)],
        "C12" => vec![("in-process client", 2), ("twins", 1), ("networked clients", 1), ("misbehaving server", 1)],
        "C13" => vec![("metrics", 3), ("engine", 2), ("history", 1), ("in-process client", 1), ("networked clients", 1), ("sessions", 1)],
        "C14" => vec![("sessions", 1)],
        "C15" => vec![("subscriptions", 1)],
        "C16" => vec![("engine", 2), ("in-process client", 1), ("networked clients", 1), ("sessions", 1), ("subscriptions", 2), ("metrics", 1)],
        "C17" => vec![("request link", 1), ("response link", 1), ("server", 1), ("misbehaving server", 1)],
        "C18" => vec![("timer", 1)],
        "C19" => vec![("terminal", 3), ("command line over the network", 1)],
        "C20" => vec![("history", 1)],
        "C23" => vec![("configured servers", 1)],
        "C22" => vec![("instances", 1)],
        "C21" => vec![("endurance", 1)],
        _ => vec![],
    }
}

/// (quick runs, quick seconds, thorough seconds)
fn budget(prop: &str) -> (u64, u64, u64) {
    match prop {
        _ => (3_000_000, 17, 600),
    }
}

fn main() {
    simcore::install_panic_hook();
    std::hint::black_box(tsan::link());
    // the server would read these
    std::env::remove_var("HOST");
    std::env::remove_var("PORT");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let verif = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() >= 2 => {
            let tier = args.get(2).cloned().unwrap_or_else(|| "quick".into());
            let prop = args[1].clone();
            if families(&prop).is_empty() {
                eprintln!("no check for {}", prop);
                std::process::exit(2);
            }
            let (runs, q, t) = budget(&prop);
            let deep = tier == "thorough";
            fw::check(&fw::Opts {
                prop,
                seed: env("VERIF_SEED").unwrap_or(1),
                runs: env("HOPSIM_RUNS").unwrap_or(if deep { u64::MAX / 2 } else { runs }),
                secs: env("HOPSIM_SECS").unwrap_or(if deep { t } else { q }),
                threads: env("HOPSIM_THREADS").unwrap_or(8).min(60) as usize,
                tier,
                verif,
            })
        }
        Some("replay") if args.len() == 2 => fw::replay(&args[1]),
        Some("one") if args.len() >= 3 => {
            // hopsim one <property> <run> [tier]
            let c = fw::gen_case(
                &args[1],
                env("VERIF_SEED").unwrap_or(1),
                args[2].parse().unwrap(),
                args.get(3).map_or(false, |t| t == "thorough"),
            );
            println!("{}", serde_json::to_string_pretty(&fw::case_json(&c)).unwrap());
            let r = fw::run_case(&c).unwrap();
            for v in &r.viols {
                println!("{}: {}", v.kind, v.detail);
            }
            println!("{:?} steps {} hash {:016x} {:?}", r.out.end, r.out.steps, r.out.hash, r.tally);
            0
        }
        _ => {
            eprintln!("usage: hopsim check <property> [quick|thorough] | replay <file> | one <property> <run>");
            2
        }
    };
    std::process::exit(code);
}
