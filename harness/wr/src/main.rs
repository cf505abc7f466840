//! Models of the writing side: hand-written serializers driven through the public builder interface.

mod faults;
mod names;
mod prog;
mod text;

use engine::{Model, Tier};

fn registry(prop: &str, tier: Tier) -> Vec<Model> {
    let mut v = Vec::new();
    text::models(prop, tier, &mut v);
    names::models(prop, tier, &mut v);
    faults::models(prop, tier, &mut v);
    v
}

fn main() {
    engine::main(registry)
}
