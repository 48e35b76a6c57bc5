mod bind;
mod example;
mod layout;
mod probe;
mod sig;
#[path = "../../plug/src/iso.rs"] mod iso;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C24" => vcore::main(layout::C24::new()),
        "C27" => vcore::main(example::C27::new()),
        _ => { eprintln!("usage: vabi <property> [--replay file]"); std::process::exit(2) }
    }
}
