mod core;
mod engine;
mod gen;
mod model;
mod cmd;
mod os;
mod props;
mod reader;

/// (The code under test runs in threads and processes with stacks of their usual size; generators and models get more.)
fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 29).spawn(simulator).expect("a thread");
    std::process::exit(t.join().unwrap_or(2))
}

fn simulator() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    core::install_panic_hook();
    let props = props::all();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            engine::check(find(&a[1]), a.get(2).map(|s| s.as_str()).unwrap_or("quick"), seed)
        }
        Some("worker") => engine::worker(find(&a[1]), &a[2..]),
        Some("exec") => engine::exec(find(&a[1]), &a[2], a.get(3).is_some_and(|s| s == "trace")),
        Some("hashes") => engine::hashes(find(&a[1]), &a[2..]),
        Some("shrink") => engine::shrink(find(&a[1]), &a[2..]),
        Some("replay") => engine::replay(&props, &a[1]),
        Some("case") => {
            let c = engine::case_of(find(&a[1]), a[2].parse().unwrap(), a[3].parse().unwrap(), false);
            println!("{}", serde_json::to_string_pretty(&c).unwrap());
            0
        }
        Some("list") => {
            props.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => 2,
    }
}
