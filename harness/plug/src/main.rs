mod gen;
mod guard;
mod hist;
mod host;
mod iso;
mod model;
mod probe;
mod vecs;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let pool = guard::Pool::new();
    match id.as_str() {
        "C14" => vcore::main(vecs::C14(pool)),
        "C15" => vcore::main(vecs::C15(pool)),
        "C16" => vcore::main(vecs::C16(pool)),
        "C17" => vcore::main(vecs::C17(pool)),
        "C18" => vcore::main(vecs::C18(pool)),
        "C19" => vcore::main(hist::C19(pool)),
        "C20" => vcore::main(hist::C20(pool)),
        "C21" => vcore::main(hist::C21(pool)),
        "C22" => vcore::main(hist::C22(pool)),
        "C30" => vcore::main(hist::C30(pool)),
        "C23" => vcore::main(vecs::C23(pool)),
        _ => { eprintln!("usage: vplug <property> [--replay file]"); std::process::exit(2) }
    }
}
