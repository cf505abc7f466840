//! Models of text: white-space normalization, scalars and derived text types.

mod derived;
mod norm;
mod scalar;

use engine::{Model, Tier};

fn registry(prop: &str, tier: Tier) -> Vec<Model> {
    let mut v = Vec::new();
    norm::models(prop, tier, &mut v);
    scalar::models(prop, tier, &mut v);
    derived::models(prop, tier, &mut v);
    v
}

fn main() {
    engine::main(registry)
}
