#[macro_use]
mod fields;
mod checks;
mod fw;
mod inst;
mod meter;
mod proto;
mod forge;
mod model;
mod refmath;
include!("common.rs");

fn main() {
    run(vec![c02()])
}
