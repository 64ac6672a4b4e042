mod c17;
mod refs;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C17" => c17::check().main(),
        _ => {
            eprintln!("unknown property {}", id);
            2
        }
    };
    std::process::exit(code)
}
