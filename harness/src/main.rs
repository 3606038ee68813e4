mod actions;
mod conc;
mod world;
mod run;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run::main(&args[2..]),
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
}
