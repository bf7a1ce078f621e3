//! Mesh algorithms and polygons.
use crate::f_mesh::err;
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
type MD = Mesh3D<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec>;

fn build<IC: IsIndexContainer>(case: &Value) -> Mesh3D<Point3D, PointCloud3D<Point3D>, IC> {
    let mut pc = PointCloud3D::new();
    for p in arr(&case["V"]) {
        let p = fls(p);
        pc.push(Point3D::new(co(p[0], 0), co(p[1], 1), co(p[2], 2)));
    }
    // negative zeros: list of [vertex, axis]
    if let Some(n0) = case["neg0"].as_array() {
        for x in n0 {
            let x = uss(x);
            let p = &mut pc.data[x[0]];
            match x[1] {
                0 => p.x = -p.x,
                1 => p.y = -p.y,
                _ => p.z = -p.z,
            }
        }
    }
    let mut ic = IC::default();
    for f in arr(&case["F"]) {
        for v in uss(f) {
            ic.push(v)
        }
    }
    Mesh3D::from((pc, ic))
}

fn show<IC: IsIndexContainer>(
    r: Result<Mesh3D<Point3D, PointCloud3D<Point3D>, IC>>,
) -> Value {
    match r {
        Err(e) => json!({"err": err(&e), "V": [], "F": []}),
        Ok(m) => {
            let v: Vec<Value> = (0..m.num_vertices())
                .map(|i| {
                    let p = m.vertex(VId(i)).unwrap();
                    json!([num(unco(p.x, 0)), num(unco(p.y, 1)), num(unco(p.z, 2))])
                })
                .collect();
            let f: Vec<Value> = (0..m.num_faces())
                .map(|i| {
                    let f = m.face_vertex_ids(FId(i)).unwrap();
                    json!([f.a.0, f.b.0, f.c.0])
                })
                .collect();
            json!({"err": "", "V": v, "F": f})
        }
    }
}

pub fn algo(fam: &str, case: &Value) -> Value {
    match fam {
        "heal" => show(heal_mesh(&build::<DynamicPrecisionIndexVec>(case))),
        "clusterv" => show(cluster_vertices(
            &build::<Vec<usize>>(case),
            le(fl(&case["size"])),
        )),
        "unify" => show(unify_faces(&build::<Vec<usize>>(case))),
        _ => show(subdivide::linear::<Point3D, M, MD>(&build::<Vec<usize>>(
            case,
        ))),
    }
}

fn poly_run<P, Q>(
    case: &Value,
    mut q: Q,
    mk: &dyn Fn(i64) -> P,
    un: &dyn Fn(&P) -> Value,
    mov: &dyn Fn(&mut Q, i64),
) -> Value
where
    Q: IsEditablePolygon<P> + HasLength,
{
    for k in arr(&case["V"]) {
        q.add_vertex(mk(k.as_i64().unwrap()));
    }
    history(case, |op| {
        let k = op["k"].as_i64().unwrap_or(0);
        let r = match st(&op["op"]) {
            "start" => 0,
            "add" => q.add_vertex(mk(k)).0 as i64,
            "chg" => match q.change_vertex(VId(us(&op["v"])), mk(k)) {
                Ok(()) => 0,
                Err(_) => -1,
            },
            "mov" => {
                mov(&mut q, k);
                0
            }
            _ => panic!("HARNESS"),
        };
        let refused = FAR.iter().all(|x| q.change_vertex(VId(*x), mk(1)).is_err());
        let n = q.num_segments();
        let nv = q.num_vertices();
        let v: Vec<Value> = (0..nv)
            .map(|i| q.vertex(VId(i)).map(|p| un(&p)).unwrap_or(json!("None")))
            .collect();
        let seg: Vec<Value> = (0..n)
            .map(|i| {
                q.segment_vertex_ids(SId(i))
                    .map(|(a, b)| json!([a.0, b.0]))
                    .unwrap_or(json!("None"))
            })
            .collect();
        let segv: Vec<Value> = (0..n)
            .map(|i| {
                q.segment_vertices(SId(i))
                    .map(|(a, b)| json!([un(&a), un(&b)]))
                    .unwrap_or(json!("None"))
            })
            .collect();
        let oob = q.vertex(VId(nv)).is_none()
            && q.segment_vertex_ids(SId(n)).is_none()
            && q.segment_vertices(SId(n)).is_none()
            && q.segment_vertex_ids(SId(n + 3)).is_none()
            && FAR.iter().all(|x| q.vertex(VId(*x)).is_none() && q.segment_vertex_ids(SId(*x)).is_none() && q.segment_vertices(SId(*x)).is_none());
        let oob = oob && refused;
        json!({"r": r, "n": n, "nv": nv, "V": v, "seg": seg, "segv": segv, "len": num(unle(q.length())), "oob": oob})
    })
}

pub fn poly(case: &Value) -> Value {
    if us(&case["dim"]) == 2 {
        poly_run(
            case,
            Polygon2D::<Point2D>::default(),
            &|k| Point2D::new(le(3.0 * k as f64), le(4.0 * k as f64)),
            &|p| {
                if p.y * 3.0 == p.x * 4.0 {
                    num(unle(p.x) / 3.0)
                } else {
                    json!("bad point")
                }
            },
            &|q, k| q.move_by(le(3.0 * k as f64), le(4.0 * k as f64)),
        )
    } else {
        poly_run(
            case,
            Polygon3D::<Point3D>::default(),
            &|k| Point3D::new(le(2.0 * k as f64), le(3.0 * k as f64), le(6.0 * k as f64)),
            &|p| {
                if p.y * 2.0 == p.x * 3.0 && p.z == 3.0 * p.x {
                    num(unle(p.x) / 2.0)
                } else {
                    json!("bad point")
                }
            },
            &|q, k| q.move_by(le(2.0 * k as f64), le(3.0 * k as f64), le(6.0 * k as f64)),
        )
    }
}
