//! C43: sampled curves
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};

fn p2(v: &Value) -> Point2D {
    let a = fls(v);
    Point2D::new(co(a[0], 0), co(a[1], 1))
}
fn cloud(v: &Value) -> PointCloud2D<Point2D> {
    let mut pc = PointCloud2D::new();
    for p in arr(v) {
        pc.push(p2(p));
    }
    pc
}
fn outs(pc: &PointCloud2D<Point2D>) -> Value {
    let m = |x: f64| num((1000.0 * x).round());
    json!(pc.data.iter().map(|p| json!([m(unco(p.x, 0)), m(unco(p.y, 1))])).collect::<Vec<_>>())
}
fn res(x: Result<PointCloud2D<Point2D>>) -> Value {
    match x {
        Ok(pc) => outs(&pc),
        Err(ErrorKind::TooFewPoints) => json!("TooFewPoints"),
        Err(e) => json!(ek(&e)),
    }
}

pub fn curves(case: &Value) -> Value {
    let n = us(&case["n"]);
    match st(&case["kind"]) {
        "path" => {
            let pc = cloud(&case["P"]);
            json!({"lin": res(interpolation_linear(&pc, n)), "cos": res(interpolate_cosine(&pc, n))})
        }
        "bezier" => json!({"bez": res(interpolate_bezier(&cloud(&case["P"]), n))}),
        "even" => {
            let (a, d, g) = (fls(&case["A"]), fls(&case["D"]), us(&case["g"]));
            let mut pc = PointCloud2D::new();
            for i in 0..=g {
                pc.push(Point2D::new(co(a[0] + i as f64 * d[0], 0), co(a[1] + i as f64 * d[1], 1)));
            }
            json!({"bez": res(interpolate_bezier(&pc, n))})
        }
        "round" => {
            let z = p2(&case["z"]);
            let pos = |x: f64| Positive::new(le(x)).unwrap();
            let (r, s) = (fl(&case["r"]), fl(&case["s"]));
            let rad = |k: &str| Rad(fl(&case[k]).to_radians());
            json!({
                "arc": outs(&arc(&z, n, pos(2.0 * r), rad("a"), rad("b"))),
                "inv": outs(&involut_circle(&z, n, pos(2.0 * r), rad("a"), rad("b"))),
                "ell": outs(&ellipse(&z, n, pos(r), pos(s))),
                "rect": outs(&rectangle(&z, pos(r), pos(s))),
            })
        }
        x => panic!("HARNESS {}", x),
    }
}
