mod c23;
#[path = "../../ext/src/irgen.rs"]
mod irgen;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C23" => c23::check().main(),
        _ => {
            eprintln!("unknown property {}", id);
            2
        }
    };
    std::process::exit(code)
}
