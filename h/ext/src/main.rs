mod c07;
mod c09;
mod c12;
mod irgen;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C07" => c07::check().main(),
        "C08" => c07::witnesses().main(),
        "C10" => c07::circom_check().main(),
        "C11" => c07::smt_check().main(),
        "C09" => c09::check().main(),
        "C12" => c12::check().main(),
        _ => {
            eprintln!("unknown property {}", id);
            2
        }
    };
    std::process::exit(code)
}
