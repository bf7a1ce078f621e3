//! Convex hull, line simplification, compression.
use crate::f_spatial::{p2, p3};
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::collections::VecDeque;

pub fn hull(case: &Value) -> Value {
    let scale = fl(&case["scale"]);
    let pts: Vec<Point2D> = arr(&case["P"])
        .iter()
        .map(|v| {
            let v = fls(v);
            Point2D::new(co(v[0] / scale, 0), co(v[1] / scale, 1))
        })
        .collect();
    let show = |h: Vec<Point2D>| -> Value {
        Value::Array(h.iter().map(|p| json!([num_s(unco(p.x, 0), scale), num_s(unco(p.y, 1), scale)])).collect())
    };
    let a: Vec<Point2D> = convex_hull_2d(&pts);
    let b: Vec<Point2D> = convex_hull_2d(&PointCloud2D { data: pts.clone() });
    let c: Vec<Point2D> = convex_hull_2d(&pts.iter().cloned().collect::<VecDeque<_>>());
    json!([show(a), show(b), show(c)])
}

#[derive(Clone)]
struct Tagged {
    p: Point2D,
    id: usize,
}
impl IsND for Tagged {
    fn n_dimensions() -> usize {
        2
    }
    fn position_nd(&self, dimension: usize) -> Option<f64> {
        self.p.position_nd(dimension)
    }
}
impl Is2D for Tagged {
    fn x(&self) -> f64 {
        self.p.x
    }
    fn y(&self) -> f64 {
        self.p.y
    }
}
pub fn dp(case: &Value) -> Value {
    let pts: Vec<Tagged> = arr(&case["P"])
        .iter()
        .enumerate()
        .map(|(i, v)| Tagged { p: p2(v), id: i + 1 })
        .collect();
    let r = douglas_peucker_2d(PointCloud2D { data: pts }, le(fl(&case["eps"])));
    json!(r.data.iter().map(|p| p.id).collect::<Vec<_>>())
}

fn comp<T: num::traits::PrimInt + num::traits::Unsigned>(pts: Vec<Point3D>) -> Value {
    match CompressedPointCloud3D::<T>::compress(&PointCloud3D { data: pts }) {
        Err(_) => json!({"r": "err", "d": []}),
        Ok(c) => {
            let pc: PointCloud3D<Point3D> = c.decompress();
            let f = |x: f64, d: usize| json!((unco(x, d) * 1000.0).round() as i64);
            json!({"r": "ok", "d": pc.data.iter().map(|p| json!([f(p.x, 0), f(p.y, 1), f(p.z, 2)])).collect::<Vec<_>>()})
        }
    }
}
pub fn compress(case: &Value) -> Value {
    let pts: Vec<Point3D> = arr(&case["P"]).iter().map(p3).collect();
    match st(&case["t"]) {
        "u8" => comp::<u8>(pts),
        "u16" => comp::<u16>(pts),
        "u32" => comp::<u32>(pts),
        "u64" => comp::<u64>(pts),
        _ => comp::<usize>(pts),
    }
}
