mod descr;
mod matrices;
use vcore::run::Check;

fn main() {
    let mut c = Check::from_args();
    match c.id.clone().as_str() {
        "C11" => matrices::c11(&mut c),
        "C12" => matrices::c12(&mut c),
        "C13" => matrices::c13(&mut c),
        "C24" => descr::c24(&mut c),
        "C14" => matrices::c14(&mut c),
        x => panic!("unknown property {x}"),
    }
    c.finish()
}
