//! C40: rays against boxes, triangles, meshes and collections
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};

struct Item {
    kind: Kind,
    seen: usize,
}
enum Kind {
    Box(BoundingBox3D),
    Cloud(PointCloud3D<Point3D>),
    Box3(Box3D),
    Ball(Sphere),
    Seg(LineSegment3D),
}
impl HasBoundingBox3DMaybe for Item {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        match &self.kind {
            Kind::Box(x) => x.bounding_box_maybe(),
            Kind::Cloud(x) => x.bounding_box_maybe(),
            Kind::Box3(x) => x.bounding_box_maybe(),
            Kind::Ball(x) => x.bounding_box_maybe(),
            Kind::Seg(x) => x.bounding_box_maybe(),
        }
    }
}
fn p3(v: &Value) -> Point3D {
    let a = fls(v);
    Point3D::new(co(a[0], 0), co(a[1], 1), co(a[2], 2))
}
fn out(p: &Point3D) -> Value {
    let m = |x: f64| num((1000.0 * x).round());
    json!([m(unco(p.x, 0)), m(unco(p.y, 1)), m(unco(p.z, 2))])
}
fn ray(case: &Value) -> Ray3D {
    let d = fls(&case["d"]);
    let k = fl(&case["len"]);
    Ray3D::new(Line3D::new(p3(&case["a"]), Norm3D::new(Point3D::new(d[0] * k, d[1] * k, d[2] * k)).unwrap()))
}
fn pos(x: f64) -> Positive {
    Positive::new(x).unwrap()
}
fn item(v: &Value, how: &str) -> Item {
    let a = arr(v);
    let kind = if a.is_empty() {
        let mut pc = PointCloud3D::new();
        if how == "flat" {
            pc.push(Point3D::new(co(0.0, 0), co(0.0, 1), co(0.0, 2)));
            pc.push(Point3D::new(co(1.0, 0), co(1.0, 1), co(0.0, 2)));
        }
        Kind::Cloud(pc)
    } else {
        let (lo, hi) = (p3(&a[0]), p3(&a[1]));
        let mid = Point3D::new((lo.x + hi.x) / 2.0, (lo.y + hi.y) / 2.0, (lo.z + hi.z) / 2.0);
        match how {
            "cloud" => {
                let mut pc = PointCloud3D::new();
                pc.push(mid);
                pc.push(Point3D::new(lo.x, hi.y, lo.z));
                pc.push(Point3D::new(hi.x, lo.y, hi.z));
                Kind::Cloud(pc)
            }
            "seg" => Kind::Seg(LineSegment3D::new(hi, lo)),
            "box3" => Kind::Box3(Box3D { center: mid, size_x: pos(hi.x - lo.x), size_y: pos(hi.y - lo.y), size_z: pos(hi.z - lo.z) }),
            "ball" => Kind::Ball(Sphere { center: mid, radius: pos((hi.x - lo.x) / 2.0) }),
            _ => Kind::Box(BoundingBox3D::new(&lo, &hi).unwrap()),
        }
    };
    Item { kind, seen: 0 }
}

pub fn rays(case: &Value) -> Value {
    let r = ray(case);
    match st(&case["kind"]) {
        "cast" => {
            let how = arr(&case["how"]);
            let mut items: Vec<Item> = arr(&case["items"]).iter().enumerate().map(|(i, x)| item(x, st(&how[i]))).collect();
            let each: Vec<Value> = items
                .iter()
                .map(|x| match x.bounding_box_maybe() {
                    Some(b) => intersection(&r.line, &b).map(|p| out(&p)).unwrap_or(json!([])),
                    None => json!([]),
                })
                .collect();
            let at = |items: &Vec<Item>, x: &Item| items.iter().position(|y| std::ptr::eq(x, y)).unwrap();
            let first = closest_intersecting(&r, items.iter()).map(|(p, x)| json!([at(&items, x), out(&p)])).unwrap_or(json!([]));
            let index = index_closest_intersecting(&r, items.iter()).map(|(p, i)| json!([i, out(&p)])).unwrap_or(json!([]));
            let m = closest_intersecting_mut(&r, items.iter_mut()).map(|(p, x)| {
                x.seen += 100;
                out(&p)
            });
            let pos = items.iter().position(|x| x.seen == 100);
            let mt = match (m, pos) {
                (Some(p), Some(i)) => json!([i, p]),
                (None, None) => json!([]),
                _ => json!("MUT"),
            };
            for x in items.iter_mut() {
                x.seen = 0
            }
            let base = items.as_ptr() as usize;
            let mut all = Vec::new();
            for_each_intersecting(&r, items.iter_mut(), &mut |p, x| {
                let i = (x as *const Item as usize - base) / std::mem::size_of::<Item>();
                x.seen += 1;
                all.push(json!([i, out(p)]));
            });
            let touched: Vec<usize> = items.iter().map(|x| x.seen).collect();
            json!({"each": each, "first": first, "index": index, "mut": mt, "all": all, "touched": touched})
        }
        "mesh" => {
            let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
            for p in arr(&case["P"]) {
                m.add_vertex(p3(p));
            }
            let mut each = Vec::new();
            for f in arr(&case["F"]) {
                let f = uss(f);
                m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap();
                let v = |i: usize| m.vertex(VId(f[i])).unwrap();
                each.push(intersection_ray_triangle(&r, &v(0), &v(1), &v(2)).map(|p| out(&p)).unwrap_or(json!([])));
            }
            let mut all = vec![Point3D::new(co(7.0, 0), co(8.0, 1), co(9.0, 2))];
            collect_intersections_ray_mesh(&r, &m, &mut all);
            json!({"each": each, "all": all.iter().map(out).collect::<Vec<_>>()})
        }
        x => panic!("HARNESS {}", x),
    }
}
