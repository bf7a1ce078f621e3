use serde_json::{json, Value};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs f; a panic becomes the value "PANIC".
pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!("PANIC"),
    }
}

/// Runs a history: one observation per op; a panicking op observes "PANIC" and ends the history.
pub fn history<F: FnMut(&Value) -> Value>(case: &Value, mut f: F) -> Value {
    let mut out = Vec::new();
    for op in case["ops"].as_array().expect("ops") {
        let v = guarded(|| f(op));
        let stop = v == json!("PANIC");
        out.push(v);
        if stop {
            break;
        }
    }
    Value::Array(out)
}

pub fn us(v: &Value) -> usize {
    match v {
        Value::String(s) => s.parse().expect("usize"),
        _ => v.as_u64().unwrap_or_else(|| panic!("HARNESS usize {}", v)) as usize,
    }
}
pub fn fl(v: &Value) -> f64 {
    v.as_f64().unwrap_or_else(|| panic!("HARNESS f64 {}", v))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS array {}", v))
}
pub fn uss(v: &Value) -> Vec<usize> {
    arr(v).iter().map(us).collect()
}
pub fn fls(v: &Value) -> Vec<f64> {
    arr(v).iter().map(fl).collect()
}
pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("HARNESS bool {}", v))
}

/// An f64 as an exact multiple of 1/scale if it is one (within rounding), else its debug form.
pub fn num_s(x: f64, scale: f64) -> Value {
    let y = x * scale;
    let r = y.round();
    if r.is_finite() && (y - r).abs() <= 1e-9 * r.abs().max(1.0) && r.abs() < 2e9 {
        json!(r as i64)
    } else {
        json!(format!("{:?}", x))
    }
}
/// Integer-valued observation.
pub fn num(x: f64) -> Value {
    num_s(x, 1.0)
}

pub fn ek<E: std::fmt::Debug>(e: &E) -> String {
    let s = format!("{:?}", e);
    s
}

thread_local! {
    static FRAME: Cell<(f64, [f64; 3])> = Cell::new((1.0, [0.0; 3]));
}
/// A case may be played in another frame: [k, x, y, z] moves every position by (x, y, z), then scales by 2^k.
/// Both are exact, so the code under test has to give the same answers; observations are taken back.
pub fn enter_frame(case: &Value) {
    let f = match &case["frame"] {
        Value::Array(a) if a.len() == 4 => {
            let a: Vec<f64> = a.iter().map(fl).collect();
            (2f64.powi(a[0] as i32), [a[1], a[2], a[3]])
        }
        _ => (1.0, [0.0; 3]),
    };
    FRAME.with(|x| x.set(f));
}
fn framed() -> (f64, [f64; 3]) {
    FRAME.with(|x| x.get())
}
/// a coordinate along an axis, into the frame
pub fn co(v: f64, axis: usize) -> f64 {
    let (s, o) = framed();
    if s == 1.0 && o[axis] == 0.0 {
        v
    } else {
        (v + o[axis]) * s
    }
}
/// a length, into the frame
pub fn le(v: f64) -> f64 {
    v * framed().0
}
/// ... and back
pub fn unco(x: f64, axis: usize) -> f64 {
    let (s, o) = framed();
    if s == 1.0 && o[axis] == 0.0 {
        x
    } else {
        x / s - o[axis]
    }
}
pub fn unle(x: f64) -> f64 {
    x / framed().0
}

/// ids nothing has, also where calculations with them would wrap around
pub const FAR: [usize; 8] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX / 3,
    usize::MAX / 3 + 1,
    2 * (usize::MAX / 3) + 1,
    2 * (usize::MAX / 3) + 2,
    1 << 63,
    1 << 40,
];
