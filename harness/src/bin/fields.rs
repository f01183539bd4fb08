#![allow(dead_code, unused_imports, unused_macros)]
#[path = "../dict.rs"]
mod dict;
#[macro_use]
#[path = "../engine.rs"]
mod engine;
#[path = "../cli.rs"]
mod cli;
#[path = "../floats.rs"]
mod floats;

fn property(id: &str) -> Option<engine::Property> {
    Some(match id {
        "C23" => floats::c23(),
        _ => return None,
    })
}
fn main() {
    cli::run(property)
}
