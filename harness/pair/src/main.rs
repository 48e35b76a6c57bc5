mod ctrl;
mod engine;
mod env;
mod gen;
mod multi;
mod props;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => vcore::main(props::C01(None)),
        "C02" => vcore::main(props::C02(None)),
        "C03" => vcore::main(props::C03(None)),
        "C04" => vcore::main(props::C04(None)),
        "C05" => vcore::main(props::C05(None)),
        "C06" => vcore::main(props::C06(None)),
        "C07" => vcore::main(props::C07(None)),
        "C08" => vcore::main(props::C08(None)),
        "C09" => vcore::main(props::C09(None)),
        "C10" => vcore::main(props::C10(None)),
        "C11" => vcore::main(props::C11(None)),
        "C12" => vcore::main(props::C12(None)),
        "C13" => vcore::main(props::C13(None)),
        "C26" => vcore::main(multi::C26(None)),
        "C28" => vcore::main(props::C28(None)),
        "C29" => vcore::main(props::C29(None)),
        _ => { eprintln!("usage: vpair <property> [--replay file]"); std::process::exit(2) }
    }
}
