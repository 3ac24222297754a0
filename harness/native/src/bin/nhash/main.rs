mod constants;
mod hashes;
mod stateful;
use vcore::run::Check;

fn main() {
    let mut c = Check::from_args();
    match c.id.clone().as_str() {
        "C01" => hashes::c01(&mut c),
        "C02" => hashes::c02(&mut c),
        "C04" => hashes::c04(&mut c),
        "C05" => stateful::c05(&mut c),
        "C10" => constants::c10(&mut c),
        "C21" => hashes::c21(&mut c),
        x => panic!("unknown property {x}"),
    }
    c.finish()
}
