#[path = "../../sim/src/driver.rs"]
mod driver;
#[path = "../../sim/src/rng.rs"]
mod rng;
mod seams;
mod ui;
#[path = "../../sim/src/world.rs"]
mod world;

use serde_json::Value;
use world::World;

fn plan(v: &Value) -> ui::Plan {
    serde_json::from_value(v.clone()).expect("plan")
}

const UI: World = World {
    props: &["C11", "C12", "C13"],
    twin: false,
    generate: |p, s, r, t| serde_json::to_value(ui::generate(p, s, r, t)).unwrap(),
    execute: |v, st| ui::execute(&plan(v), st),
    shrink: |v| ui::shrink(&plan(v)).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect(),
    init: || {},
    rule: ui::rule,
    real: &[
        "cavalier_contours_ui (MainApp, all scenes, all plot items)",
        "cavalier_contours",
        "static_aabb2d_index",
        "egui (input handling, layout, interaction, memory, tessellation)",
        "egui_plot",
        "lyon tessellation",
        "eframe storage encoding",
    ],
    stubs: &["window system and event loop", "clock", "graphics card (painted triangles are discarded)", "entropy (hash keys)", "persistent storage of the application", "the user", "assistive technology"],
    assumptions: ui::assumptions,
    edges: seams::edges,
};

fn main() {
    seams::init();
    let worlds = [UI];
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| a(i).parse::<u64>().unwrap_or(0);
    let code = match a(1) {
        "check" => driver::check(&worlds, a(2)),
        "worker" => driver::remote_worker(&worlds, a(2), num(3), num(4) as i32, num(5) as i32, a(6).parse().unwrap_or(1.0)),
        "confirm" => driver::confirm(&worlds, a(2), a(3)),
        "replay" => driver::replay(&worlds, a(2)),
        "one" => driver::one(&worlds, a(2), a(3).parse().unwrap_or(0)),
        "digests" => driver::digests(&worlds, a(2), a(3).parse().unwrap_or(20)),
        _ => {
            println!("usage: cavsim-ui check <property> | replay <file> | one <property> <run> | digests <property> <n>");
            2
        }
    };
    std::process::exit(code);
}
