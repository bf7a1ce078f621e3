//! Spatial search structures: kd-tree, octree, box trees, grid cluster, colliders (integer coordinates).
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::collections::{LinkedList, VecDeque};

pub fn p3(v: &Value) -> Point3D {
    let v = fls(v);
    Point3D::new(co(v[0], 0), co(v[1], 1), co(v[2], 2))
}
/// a direction
fn d3(v: &Value) -> Point3D {
    let v = fls(v);
    Point3D::new(le(v[0]), le(v[1]), le(v[2]))
}
pub fn p2(v: &Value) -> Point2D {
    let v = fls(v);
    Point2D::new(co(v[0], 0), co(v[1], 1))
}
fn o3<P: Is3D>(p: &P) -> Value {
    json!([num(unco(p.x(), 0)), num(unco(p.y(), 1)), num(unco(p.z(), 2))])
}
fn os(v: &[Point3D]) -> Value {
    Value::Array(v.iter().map(o3).collect())
}
fn pos(x: f64) -> Positive {
    Positive::new(x).expect("HARNESS positive")
}

// ------------------------------------------------------------------ kd-tree
pub fn kd(case: &Value) -> Value {
    let pts: Vec<Point3D> = arr(&case["P"]).iter().map(p3).collect();
    let mut tree = KdTree::<Point3D>::default();
    let mut built = "ok";
    if us(&case["rebuild"]) > 0 {
        // a tree may be built again with other points
        let other: Vec<Point3D> = pts.iter().take(us(&case["rebuild"])).map(|p| Point3D::new(p.y, p.x + 1.0, p.z)).collect();
        let _ = tree.build(PointCloud3D { data: other });
    }
    if tree.build(PointCloud3D { data: pts.clone() }).is_err() {
        built = "err"
    }
    let pre = vec![Point3D::new(co(7.0, 0), co(7.0, 1), co(7.0, 2)); us(&case["pre"])];
    let near: Vec<Value> = arr(&case["K"])
        .iter()
        .map(|k| match tree.nearest(&p3(&k["q"])) {
            None => json!([]),
            Some(p) => json!([o3(&p)]),
        })
        .collect();
    let kn: Vec<Value> = arr(&case["K"])
        .iter()
        .map(|k| {
            let mut r = Vec::new();
            // the type of the query may differ from the stored type
            match us(&k["k"]) % 2 {
                0 => tree.knearest(&p3(&k["q"]), us(&k["k"]), &mut r),
                _ => {
                    let n = p3(&k["q"]);
                    tree.knearest(&Probe { p: n }, us(&k["k"]), &mut r)
                }
            }
            os(&r)
        })
        .collect();
    let sph: Vec<Value> = arr(&case["S"])
        .iter()
        .map(|k| {
            let mut r = pre.clone();
            tree.in_sphere(
                &Sphere {
                    center: p3(&k["q"]),
                    radius: pos(le(fl(&k["r"]))),
                },
                &mut r,
            );
            os(&r)
        })
        .collect();
    let bx: Vec<Value> = arr(&case["B"])
        .iter()
        .map(|k| {
            let mut r = pre.clone();
            let h = fls(&k["h"]);
            tree.in_box(
                &Box3D {
                    center: p3(&k["q"]),
                    size_x: pos(le(h[0] * 2.0)),
                    size_y: pos(le(h[1] * 2.0)),
                    size_z: pos(le(h[2] * 2.0)),
                },
                &mut r,
            );
            os(&r)
        })
        .collect();
    json!({"built": built, "size": tree.size(), "pts": os(&tree.to_pointcloud().data), "near": near, "kn": kn, "sph": sph, "box": bx})
}

/// another 3D type, to query with
pub struct Probe {
    p: Point3D,
}
impl IsND for Probe {
    fn n_dimensions() -> usize {
        3
    }
    fn position_nd(&self, dimension: usize) -> Option<f64> {
        self.p.position_nd(dimension)
    }
}
impl Is3D for Probe {
    fn x(&self) -> f64 {
        self.p.x
    }
    fn y(&self) -> f64 {
        self.p.y
    }
    fn z(&self) -> f64 {
        self.p.z
    }
}

// ------------------------------------------------------------------ octree
fn ulp(x: f64, n: i64) -> f64 {
    if n == 0 {
        x
    } else {
        f64::from_bits((x.to_bits() as i64 + n) as u64)
    }
}
pub fn oct(case: &Value) -> Value {
    let scale = fl(&case["scale"]);
    let pts: Vec<Point3D> = arr(&case["P"])
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let v = fls(v);
            let u = case["U"].get(i).map(fls).unwrap_or(vec![0.0; 3]);
            let k = case["S"].get(i).map(us).unwrap_or(0) as i32; // shrunk by 2^k
            let scale = scale * 2f64.powi(k);
            Point3D::new(
                ulp(co(v[0] / scale, 0), u[0] as i64),
                ulp(co(v[1] / scale, 1), u[1] as i64),
                ulp(co(v[2] / scale, 2), u[2] as i64),
            )
        })
        .collect();
    let mut tree = OcTree::<Point3D>::default();
    if us(&case["rebuild"]) > 0 {
        let other: Vec<Point3D> = pts.iter().map(|p| Point3D::new(p.y, p.x + 1.0, p.z)).collect();
        let _ = tree.build(PointCloud3D { data: other });
    }
    if tree.build(PointCloud3D { data: pts.clone() }).is_err() {
        return json!({"built": "err"});
    }
    // points as indices of the (distinct) input points, 0 for a point that was never put in
    let ids = |d: &[Point3D]| -> Value {
        json!(d
            .iter()
            .map(|p| pts
                .iter()
                .position(|q| (q.x, q.y, q.z) == (p.x, p.y, p.z))
                .map(|i| i + 1)
                .unwrap_or(0))
            .collect::<Vec<usize>>())
    };
    let fx = |x: f64, d: usize| json!((unco(x, d) * scale * 64.0).round() as i64);
    let cut: Vec<Value> = arr(&case["D"])
        .iter()
        .map(|d| {
            let pc = tree.collect(us(d) as i8);
            Value::Array(pc.data.iter().map(|p| json!([fx(p.x, 0), fx(p.y, 1), fx(p.z, 2)])).collect())
        })
        .collect();
    json!({"built": "ok", "size": tree.size(), "pts": ids(&tree.to_pointcloud().data),
        "all": ids(&tree.collect(-1).data), "cut": cut})
}

// ------------------------------------------------------------------ box trees
#[derive(Clone)]
struct El3 {
    id: usize,
    bb: BoundingBox3D,
    kind: String,
    def: Value,
}
impl HasBoundingBox3DMaybe for El3 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.bb.clone())
    }
}
impl HasBoundingBox3D for El3 {
    fn bounding_box(&self) -> BoundingBox3D {
        self.bb.clone()
    }
}
impl El3 {
    fn new(id: usize, v: &Value) -> El3 {
        let kind = st(&v["kind"]).to_string();
        let bb = if kind == "r345" {
            r345(v).bounding_box()
        } else {
            BoundingBox3D::new(&p3(&v["lo"]), &p3(&v["hi"])).expect("HARNESS box")
        };
        El3 {
            id,
            bb,
            kind,
            def: v.clone(),
        }
    }
}
/// "" only the bounding box; "box" one unaligned box of the same extent; "two" two unaligned boxes: the lower and
/// upper half in x
impl HasColliders3D for El3 {
    fn has_additional_colliders(&self) -> bool {
        !self.kind.is_empty()
    }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) {
        match self.kind.as_str() {
            "" => {}
            "box" => f(&Collider3D::Box3(BoxUnaligned3D::new_from_bb(&self.bb))),
            "rot" => f(&rotated(&self.bb)),
            "r345" => f(&r345(&self.def)),
            _ => {
                let (a, b) = (self.bb.min_p(), self.bb.max_p());
                let m = 0.5 * (a.x + b.x);
                let q = BoundingBox3D::new(&a, &Point3D::new(m, b.y, b.z)).expect("HARNESS");
                let r = BoundingBox3D::new(&Point3D::new(m, a.y, a.z), &b).expect("HARNESS");
                f(&Collider3D::Box3(BoxUnaligned3D::new_from_bb(&q)));
                f(&Collider3D::AABB(r));
            }
        }
    }
}
/// the same body, given as a box turned by a quarter around z
fn rotated(bb: &BoundingBox3D) -> Collider3D {
    Collider3D::Box3(BoxUnaligned3D::new_from_z_rotation(
        &bb.center_bb(),
        [bb.size_y(), bb.size_x(), bb.size_z()],
        0.5 * std::f64::consts::PI,
    ))
}
/// the body turned by the angle with cosine 3/5 and sine 4/5
fn r345(v: &Value) -> Collider3D {
    let bb = BoundingBox3D::new(&p3(&v["lo"]), &p3(&v["hi"])).expect("HARNESS box");
    Collider3D::Box3(BoxUnaligned3D::new_from_z_rotation(
        &bb.center_bb(),
        [bb.size_x(), bb.size_y(), bb.size_z()],
        (4.0f64).atan2(3.0),
    ))
}
#[derive(Clone)]
struct El2 {
    id: usize,
    bb: BoundingBox2D,
}
impl HasBoundingBox2DMaybe for El2 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox2D> {
        Some(self.bb.clone())
    }
}
impl HasBoundingBox2D for El2 {
    fn bounding_box(&self) -> BoundingBox2D {
        self.bb.clone()
    }
}
fn set(mut v: Vec<usize>) -> Value {
    v.sort();
    v.dedup();
    json!(v)
}

pub fn tree2(case: &Value) -> Value {
    let els: Vec<El2> = arr(&case["E"])
        .iter()
        .enumerate()
        .map(|(i, v)| El2 {
            id: i + 1,
            bb: BoundingBox2D::new(&p2(&v["lo"]), &p2(&v["hi"])).expect("HARNESS box"),
        })
        .collect();
    let tree = AABBTree2D::new(els, us(&case["depth"]), us(&case["bucket"]));
    let coll: Vec<Value> = arr(&case["Q"])
        .iter()
        .map(|v| {
            let q = BoundingBox2D::new(&p2(&v["lo"]), &p2(&v["hi"])).expect("HARNESS box");
            let mut r = Vec::new();
            tree.bb_colliding(&q, &mut r);
            let mut c = Vec::new();
            tree.for_each_collision_candidate(&q, &mut |e| c.push(e.id));
            json!([set(r.iter().map(|e| e.id).collect()), set(c)])
        })
        .collect();
    let cross: Vec<Value> = arr(&case["X"])
        .iter()
        .map(|v| {
            let (mut rx, mut ry) = (Vec::new(), Vec::new());
            tree.bb_crossing_x_value(co(fl(v), 0), &mut rx);
            tree.bb_crossing_y_value(co(fl(v), 1), &mut ry);
            json!([set(rx.iter().map(|e| e.id).collect()), set(ry.iter().map(|e| e.id).collect())])
        })
        .collect();
    let any: Vec<Value> = (0..=arr(&case["E"]).len() + 1).map(|i| json!(tree.any(&|e| e.id == i))).collect();
    json!({"coll": coll, "cross": cross, "any": any})
}

pub fn tree3(case: &Value) -> Value {
    let els: Vec<El3> = arr(&case["E"]).iter().enumerate().map(|(i, v)| El3::new(i + 1, v)).collect();
    let tree = AABBTree3D::new(els.clone(), us(&case["depth"]), us(&case["bucket"]));
    let coll: Vec<Value> = arr(&case["Q"])
        .iter()
        .map(|v| {
            let q = El3::new(0, v);
            let mut r = Vec::new();
            tree.bb_colliding(&q.bb, &mut r);
            let mut c = Vec::new();
            tree.for_each_collision_candidate(&q.bb, &mut |e| c.push(e.id));
            json!([set(r.iter().map(|e| e.id).collect()), set(c)])
        })
        .collect();
    let cross: Vec<Value> = arr(&case["X"])
        .iter()
        .map(|v| {
            let (mut rx, mut ry, mut rz) = (Vec::new(), Vec::new(), Vec::new());
            tree.bb_crossing_x_value(co(fl(v), 0), &mut rx);
            tree.bb_crossing_y_value(co(fl(v), 1), &mut ry);
            tree.bb_crossing_z_value(co(fl(v), 2), &mut rz);
            json!([
                set(rx.iter().map(|e| e.id).collect()),
                set(ry.iter().map(|e| e.id).collect()),
                set(rz.iter().map(|e| e.id).collect())
            ])
        })
        .collect();
    let lines: Vec<Value> = arr(&case["L"])
        .iter()
        .map(|v| {
            let l = Line3D::new(p3(&v["a"]), Norm3D::new(d3(&v["d"])).expect("HARNESS dir"));
            let mut c = Vec::new();
            tree.for_each_intersection_candidate(&l, &mut |e| c.push(e.id));
            set(c)
        })
        .collect();
    let any: Vec<Value> = (0..=els.len() + 1).map(|i| json!(tree.any(&|e| e.id == i))).collect();
    let vd: VecDeque<El3> = els.iter().cloned().collect();
    let ll: LinkedList<El3> = els.iter().cloned().collect();
    let anyc: Vec<Value> = arr(&case["Q"])
        .iter()
        .map(|v| {
            let q = El3::new(0, v);
            let cs: [&dyn IsColliderContainer3D; 4] = [&tree, &els, &vd, &ll];
            json!([
                cs.iter().map(|c| c.any_element_collides_with_collider(&q)).collect::<Vec<_>>(),
                cs.iter().map(|c| c.any_element_collides_with_bounding(&q)).collect::<Vec<_>>()
            ])
        })
        .collect();
    json!({"coll": coll, "cross": cross, "lines": lines, "any": any, "anyc": anyc})
}

// ------------------------------------------------------------------ grid cluster
pub fn cluster(case: &Value) -> Value {
    let els: Vec<El3> = arr(&case["E"]).iter().enumerate().map(|(i, v)| El3::new(i + 1, v)).collect();
    match Cluster::new(els, us(&case["nx"]) as u16, us(&case["ny"]) as u16) {
        Err(_) => json!({"built": "err", "c": []}),
        Ok(c) => {
            let r: Vec<Value> = arr(&case["Q"])
                .iter()
                .map(|q| {
                    let q = fls(q);
                    let mut v = Vec::new();
                    c.for_each_candidate(co(q[0] / 4.0, 0), co(q[1] / 4.0, 1), &mut |e| v.push(e.id));
                    set(v)
                })
                .collect();
            json!({"built": "ok", "c": r})
        }
    }
}

// ------------------------------------------------------------------ colliders
fn collider(v: &Value) -> Collider3D {
    match st(&v["kind"]) {
        "aabb" => Collider3D::AABB(BoundingBox3D::new(&p3(&v["lo"]), &p3(&v["hi"])).expect("HARNESS")),
        "box" => Collider3D::Box3(BoxUnaligned3D::new_from_bb(
            &BoundingBox3D::new(&p3(&v["lo"]), &p3(&v["hi"])).expect("HARNESS"),
        )),
        "rot" => rotated(&BoundingBox3D::new(&p3(&v["lo"]), &p3(&v["hi"])).expect("HARNESS")),
        "r345" => r345(v),
        "moved" => {
            let mut b =
                BoxUnaligned3D::new_from_bb(&BoundingBox3D::new(&p3(&v["lo"]), &p3(&v["hi"])).expect("HARNESS"));
            b.move_by(le(1.0), le(-2.0), le(3.0));
            b.move_by(le(-1.0), le(2.0), le(-3.0));
            Collider3D::Box3(b)
        }
        _ => {
            let p = [p3(&v["p"][0]), p3(&v["p"][1]), p3(&v["p"][2])];
            let f = TriFace3D::new(p[0].clone(), p[1].clone(), p[2].clone()).expect("HARNESS face");
            assert!(f.a() == &p[0] && f.b() == &p[1] && f.c() == &p[2] && f.bounding_box_maybe() == Some(f.bounding_box()), "HARNESS-DIFF");
            Collider3D::Face(f)
        }
    }
}
struct Body {
    cs: Vec<Value>,
    bb: BoundingBox3D,
}
impl Body {
    fn new(v: &Value) -> Body {
        let cs = arr(v).clone();
        let mut bb = collider(&cs[0]).bounding_box();
        for c in &cs {
            bb.consume(collider(c).bounding_box());
        }
        Body { cs, bb }
    }
}
impl HasBoundingBox3DMaybe for Body {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.bb.clone())
    }
}
impl HasBoundingBox3D for Body {
    fn bounding_box(&self) -> BoundingBox3D {
        self.bb.clone()
    }
}
impl HasColliders3D for Body {
    fn has_additional_colliders(&self) -> bool {
        self.cs.len() > 1 || st(&self.cs[0]["kind"]) != "aabb"
    }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) {
        for c in &self.cs {
            f(&collider(c))
        }
    }
}
pub fn sat(case: &Value) -> Value {
    let (a, b) = (Body::new(&case["A"]), Body::new(&case["B"]));
    let pairs: Vec<Value> = a
        .cs
        .iter()
        .map(|x| {
            Value::Array(
                b.cs.iter()
                    .map(|y| {
                        let (x, y) = (collider(x), collider(y));
                        json!([x.collides_with(&y), y.collides_with(&x), HasColliders3D::collides_with(&x, &y)])
                    })
                    .collect(),
            )
        })
        .collect();
    // the reported boxes in 1/10, rounded inwards
    let boxes = |b: &Body| -> Vec<Value> {
        b.cs.iter()
            .map(|c| {
                let x = collider(c);
                let bb = x.bounding_box();
                let inner = match &x {
                    Collider3D::AABB(b) => b.bounding_box_maybe(),
                    Collider3D::Box3(b) => b.bounding_box_maybe(),
                    Collider3D::Face(f) => f.bounding_box_maybe(),
                };
                assert!(x.bounding_box_maybe() == Some(bb.clone()) && inner == Some(bb.clone()), "HARNESS-DIFF");
                let (mi, ma) = (bb.min_p(), bb.max_p());
                let lo = |x: f64, d: usize| (unco(x, d) * 10.0 - 1e-6).ceil() as i64;
                let hi = |x: f64, d: usize| (unco(x, d) * 10.0 + 1e-6).floor() as i64;
                json!([[lo(mi.x, 0), lo(mi.y, 1), lo(mi.z, 2)], [hi(ma.x, 0), hi(ma.y, 1), hi(ma.z, 2)]])
            })
            .collect()
    };
    json!({"pairs": pairs, "both": [HasColliders3D::collides_with(&a, &b), HasColliders3D::collides_with(&b, &a)],
        "boxes": [boxes(&a), boxes(&b)]})
}
