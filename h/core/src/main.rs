mod asmc;
mod asmf;
mod c01;
mod c03;
mod c04;
mod c06;
mod c18;
mod chains;
mod cmpf;
mod util;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let code = match id.as_str() {
        "C01" => c01::outputs().main(),
        "C03" => c03::check().main(),
        "C04" => c04::check().main(),
        "C06" => c06::check().main(),
        "C18" => c18::check().main(),
        "C02" => c01::acceptance().main(),
        _ => {
            eprintln!("unknown property {}", id);
            2
        }
    };
    std::process::exit(code)
}
