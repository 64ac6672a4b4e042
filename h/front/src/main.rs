mod c13;
mod c14;
mod c15;
mod c16;
mod norm;
mod split;
mod tok;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C13" => c13::check().main(),
        "C14" => c14::check().main(),
        "C15" => c15::check().main(),
        "worker" => c15::worker(),
        "C16" => c16::check().main(),
        _ => {
            eprintln!("unknown property {}", id);
            2
        }
    };
    std::process::exit(code)
}
