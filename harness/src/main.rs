//! Conformance harness: executes the cases (behaviours) written by the TLA+
//! side on the real crate and records what the real code did.
//!
//!   vp-harness run CASES.ndjson OBS.ndjson PROGRESS
//!
//! One JSON object per line in CASES; one line {"id":..,"obs":..} per case in
//! OBS. A panic of the code under test is data ("PANIC"), never an error.
mod util;
mod f_mesh;
mod f_meshops;
mod f_views;
mod f_curve;
mod f_geo;
mod f_algo;
mod f_io;
mod f_cont;
mod f_ray;
mod f_spatial;
mod f_text;
mod f_values;
mod f_vec;
mod f_xform;

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Seek, SeekFrom, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 5 || args[1] != "run" {
        eprintln!("usage: vp-harness run CASES OBS PROGRESS");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let cases = BufReader::new(File::open(&args[2]).expect("cases"));
    let mut obs = BufWriter::new(File::create(&args[3]).expect("obs"));
    let mut prog = File::create(&args[4]).expect("progress");
    for (n, line) in cases.lines().enumerate() {
        let line = line.expect("line");
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).expect("case json");
        prog.seek(SeekFrom::Start(0)).unwrap();
        write!(prog, "{:<12}", n).unwrap();
        let fam = case["fam"].as_str().unwrap_or("").to_string();
        util::enter_frame(&case);
        let r = util::guarded(|| dispatch(&fam, &case));
        let out = json!({"id": case["id"], "obs": r});
        writeln!(obs, "{}", out).unwrap();
    }
    obs.flush().unwrap();
}

fn dispatch(fam: &str, case: &Value) -> Value {
    match fam {
        "ivec" => f_mesh::ivec(case),
        "mesh" => f_mesh::mesh(case),
        "he" => f_mesh::half_edge(case),
        "heal" | "clusterv" | "unify" | "subdiv" => f_meshops::algo(fam, case),
        "poly" => f_meshops::poly(case),
        "views" => f_views::views(case),
        "flogic" => f_views::logic(case),
        "rafilter" => f_views::ra(case),
        "region" => f_geo::region(case),
        "outlier" => f_geo::outlier(case),
        "bbox" => f_geo::bbox(case),
        "cont" => f_cont::cont(case),
        "kd" => f_spatial::kd(case),
        "oct" => f_spatial::oct(case),
        "tree2" => f_spatial::tree2(case),
        "tree3" => f_spatial::tree3(case),
        "cluster" => f_spatial::cluster(case),
        "sat" => f_spatial::sat(case),
        "values" => f_values::values(case),
        "vec" => f_vec::vectors(case),
        "curve" => f_curve::curves(case),
        "text" => f_text::text(case),
        "ray" => f_ray::rays(case),
        "xform" => f_xform::xform(case),
        "hull" => f_algo::hull(case),
        "dp" => f_algo::dp(case),
        "comp" => f_algo::compress(case),
        "io" => f_io::read(case),
        "save" => f_io::save(case),
        _ => json!(format!("UNKNOWN-FAMILY {}", fam)),
    }
}
