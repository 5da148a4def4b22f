mod check;
mod crash;
mod device;
mod map;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let root = args.get(3).cloned().unwrap_or("/verif".into());
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check::check(&args[2], &root)),
        _ => {
            eprintln!("usage: store check <property> [root]");
            std::process::exit(2);
        }
    }
}
