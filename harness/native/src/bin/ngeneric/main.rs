mod generic;
use vcore::run::Check;

fn main() {
    let mut c = Check::from_args();
    match c.id.clone().as_str() {
        "C03" => generic::c03(&mut c),
        x => panic!("unknown property {x}"),
    }
    c.finish()
}
