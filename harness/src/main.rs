use pf_harness::engine;
use pf_harness::props::ALL;
use std::path::Path;

fn find(id: &str) -> &'static engine::Prop {
    match ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2);
        }
    }
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "list" => {
            for p in ALL {
                println!("{}", p.id);
            }
            0
        }
        "run" => engine::run(find(arg(2))),
        "worker" => engine::worker(find(arg(2))),
        "index" => engine::single_index(find(arg(2)), arg(3).parse().expect("index")),
        "tape" => engine::single_tape(find(arg(2)), Path::new(arg(3))),
        "replay" => engine::replay(Path::new(arg(2)), ALL),
        "seeds" => engine::fuzz_seeds(find(arg(2)), arg(3).parse().expect("count"), Path::new(arg(4))),
        "found" => engine::fuzz_found(find(arg(2)), Path::new(arg(3))),
        "fresh" => pf_harness::props::c22::fresh_main(),
        "xgen" => {
            pf_harness::xcheck::generate(arg(2).parse().expect("cases"), arg(3).parse().expect("seed"), arg(4));
            0
        }
        _ => {
            eprintln!("usage: pf run <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
