#[macro_use]
mod fields;
mod checks;
mod fw;
mod inst;
mod meter;
mod proto;
mod forge;
mod model;
mod refmath;
include!("common.rs");

fn main() {
    run(vec![c01(), c02(), c03(), c04(), c09(), c10(), c11(), c21(), c24(), c07(), c08(), c12(), c13(), c14(), c15(), c16(), c19(), c17(), c18(), c05(), c06(), c20(), c22(), c23(), c25(), c26(), c27(), c28(), c29(), c30(), c31(), outcomes(), tiny()])
}
