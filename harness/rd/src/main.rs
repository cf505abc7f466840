//! Models of the reading side that need no derive macros.

mod lex;
mod sync;

use engine::{Model, Tier};

fn registry(prop: &str, tier: Tier) -> Vec<Model> {
    let mut v = Vec::new();
    sync::models(prop, tier, &mut v);
    lex::models(prop, tier, &mut v);
    v
}

fn main() {
    engine::main(registry)
}
