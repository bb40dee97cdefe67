#![feature(alloc_error_hook)]
mod cabi;
mod capi;
mod driver;
mod genr;
mod kernel;
mod ops;
mod rng;
mod serial;
mod world;

use serde_json::Value;
use world::World;

fn sim_init() {
    kernel::shm_init();
}

fn edges() -> (u64, u64) {
    let m = kernel::cov_map();
    (m.iter().filter(|x| **x != 0).count() as u64, kernel::guards_total() as u64)
}

fn ops_plan(v: &Value) -> ops::Plan {
    serde_json::from_value(v.clone()).expect("plan")
}

const OPS: World = World {
    props: &["C04", "C05", "C06", "C07", "C10", "C14"],
    twin: true,
    generate: |p, s, r, t| serde_json::to_value(ops::generate(p, s, r, t)).unwrap(),
    execute: |v, st| ops::execute(&ops_plan(v), st),
    shrink: |v| ops::shrink(&ops_plan(v)).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect(),
    init: sim_init,
    rule: ops::rule,
    real: &["cavalier_contours (all of polyline, shape_algorithms, core)", "static_aabb2d_index", "std collections, formatting and unwinding", "operating system threads (one runs at a time)"],
    stubs: &["thread scheduler", "heap", "clock", "entropy (hash keys)", "futex sleeps", "caller's polyline storage and visitors"],
    assumptions: ops::assumptions,
    edges,
};

fn capi_plan(v: &Value) -> capi::Plan {
    serde_json::from_value(v.clone()).expect("plan")
}

const CAPI: World = World {
    props: &["C01", "C02", "C03"],
    twin: true,
    generate: |p, s, r, t| serde_json::to_value(capi::generate(p, s, r, t)).unwrap(),
    execute: |v, st| capi::execute(&capi_plan(v), st),
    shrink: |v| capi::shrink(&capi_plan(v)).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect(),
    init: sim_init,
    rule: capi::rule,
    real: &["cavalier_contours_ffi (all exported functions)", "cavalier_contours", "static_aabb2d_index", "std collections and unwinding", "operating system threads (one runs at a time)"],
    stubs: &["thread scheduler", "heap", "clock", "entropy (hash keys)", "futex sleeps", "the C caller"],
    assumptions: capi::assumptions,
    edges,
};

fn serial_plan(v: &Value) -> serial::Plan {
    serde_json::from_value(v.clone()).expect("plan")
}

const SERIAL: World = World {
    props: &["C08", "C09"],
    twin: true,
    generate: |p, s, r, t| serde_json::to_value(serial::generate(p, s, r, t)).unwrap(),
    execute: |v, st| serial::execute(&serial_plan(v), st),
    shrink: |v| serial::shrink(&serial_plan(v)).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect(),
    init: sim_init,
    rule: serial::rule,
    real: &["cavalier_contours (serialisation, selections, boolean operations)", "serde_json", "std buffering, formatting and unwinding", "operating system processes (memory of one does not reach the next)"],
    stubs: &["disk, readers and writers", "power supply", "thread scheduler", "heap", "clock", "entropy (hash keys)", "two binary codecs", "the program that wrote the file"],
    assumptions: serial::assumptions,
    edges,
};

fn main() {
    kernel::disable_aslr_and_reexec();
    kernel::install_panic_machinery();
    kernel::cov_init();
    let worlds = [CAPI, OPS, SERIAL];
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    if std::env::var_os("CAVSIM_VERBOSE").is_some() {
        unsafe { kernel::VERBOSE = true };
    }
    let num = |i: usize| a(i).parse::<u64>().unwrap_or(0);
    let code = match a(1) {
        "check" => driver::check(&worlds, a(2)),
        "worker" => driver::remote_worker(&worlds, a(2), num(3), num(4) as i32, num(5) as i32, a(6).parse().unwrap_or(1.0)),
        "confirm" => driver::confirm(&worlds, a(2), a(3)),
        "replay" => driver::replay(&worlds, a(2)),
        "one" => driver::one(&worlds, a(2), a(3).parse().unwrap_or(0)),
        "digests" => driver::digests(&worlds, a(2), a(3).parse().unwrap_or(20)),
        _ => {
            println!("usage: cavsim check <property> | replay <file> | one <property> <run> | digests <property> <n>");
            2
        }
    };
    std::process::exit(code);
}
