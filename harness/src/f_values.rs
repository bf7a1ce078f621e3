//! C45: equality, hashing, cloning and order of values
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn c(v: &Value) -> f64 {
    let x = fl(v);
    if x == 99.0 {
        -0.0
    } else {
        x
    }
}
fn cs(v: &Value) -> Vec<f64> {
    arr(v).iter().map(c).collect()
}
fn p2(v: &Value) -> Point2D {
    let x = cs(v);
    Point2D::new(x[0], x[1])
}
fn p3(v: &Value) -> Point3D {
    let x = cs(v);
    Point3D::new(x[0], x[1], x[2])
}
fn n2(v: &Value) -> Norm2D {
    Norm2D::new(p2(v)).expect("HARNESS")
}
fn n3(v: &Value) -> Norm3D {
    Norm3D::new(p3(v)).expect("HARNESS")
}
fn pos(x: f64) -> Positive {
    Positive::new(x).expect("HARNESS")
}
fn box2(v: &Value) -> Box2D {
    let s = cs(&v[1]);
    Box2D { center: p2(&v[0]), size_x: pos(s[0]), size_y: pos(s[1]) }
}
fn box3(v: &Value) -> Box3D {
    let s = cs(&v[1]);
    Box3D { center: p3(&v[0]), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) }
}
fn circle(v: &Value) -> Circle {
    Circle { center: p2(&v[0]), radius: pos(c(&v[1][0])) }
}
fn sphere(v: &Value) -> Sphere {
    Sphere { center: p3(&v[0]), radius: pos(c(&v[1][0])) }
}
fn pc2(v: &Value) -> PointCloud2D<Point2D> {
    let mut r = PointCloud2D::new();
    arr(v).iter().for_each(|p| r.push(p2(p)));
    r
}
fn pc3(v: &Value) -> PointCloud3D<Point3D> {
    let mut r = PointCloud3D::with_capacity(1);
    arr(v).iter().for_each(|p| r.push(p3(p)));
    r
}
fn id(v: &Value) -> usize {
    us(&v[0][0])
}
fn net(v: &Value, places: bool) -> Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> {
    let n = us(&v[0][0]);
    let a = arr(v);
    let mut pc = PointCloud3D::new();
    for i in 0..n {
        pc.push(if places { p3(&a[1 + i]) } else { Point3D::new(i as f64, 0.0, 0.0) });
    }
    let mut ids = Vec::new();
    for f in a.iter().skip(if places { 1 + n } else { 1 }) {
        ids.extend(uss(f));
    }
    Mesh3D::from((pc, ids))
}

fn same<T: PartialEq + Clone>(vals: &Value, make: impl Fn(&Value) -> T) -> (Vec<T>, Value) {
    let v: Vec<T> = arr(vals).iter().map(make).collect();
    let eq: Vec<Vec<bool>> = v.iter().map(|a| v.iter().map(|b| a == b).collect()).collect();
    let ne = v.iter().zip(&eq).all(|(a, r)| v.iter().zip(r).all(|(b, e)| (a != b) != *e));
    let clone = v.iter().all(|a| a.clone() == *a) && v.clone() == v;
    let r = json!({"eq": eq, "clone": clone && ne});
    (v, r)
}
fn hashed<T: PartialEq + Eq + Clone + Hash>(vals: &Value, make: impl Fn(&Value) -> T) -> (Vec<T>, Value) {
    let (v, mut r) = same(vals, make);
    let h: Vec<u64> = v.iter().map(hash).collect();
    r["hash"] = json!(h.iter().map(|a| h.iter().map(|b| a == b).collect::<Vec<_>>()).collect::<Vec<_>>());
    let set: HashSet<T> = v.iter().cloned().collect();
    r["set"] = json!(set.len());
    if !v.iter().all(|x| set.contains(x) && hash(&x.clone()) == hash(x)) {
        r["clone"] = json!(false);
    }
    (v, r)
}
fn ordered<T: Eq + Clone + Hash + Ord>(vals: &Value, make: impl Fn(&Value) -> T) -> (Vec<T>, Value) {
    let (v, mut r) = hashed(vals, make);
    let sg = |o: Ordering| match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    };
    r["cmp"] = json!(v.iter().map(|a| v.iter().map(|b| sg(Ord::cmp(a, b))).collect::<Vec<_>>()).collect::<Vec<_>>());
    let mut at: Vec<usize> = (0..v.len()).collect();
    at.sort_by(|a, b| Ord::cmp(&v[*a], &v[*b]));
    r["sort"] = json!(at);
    (v, r)
}
fn less<T: PartialOrd>(mut r: Value, v: Vec<T>) -> Value {
    r["less"] = json!(v.iter().map(|a| v.iter().map(|b| a < b).collect::<Vec<_>>()).collect::<Vec<_>>());
    let agree = v.iter().all(|a| v.iter().all(|b| (a < b) == (b > a) && (a <= b) == !(b < a)));
    if !agree {
        r["clone"] = json!(false);
    }
    r
}

pub fn values(case: &Value) -> Value {
    let v = &case["vals"];
    match st(&case["kind"]) {
        "p2" => ordered(v, |x| p2(&x[0])).1,
        "p3" => ordered(v, |x| p3(&x[0])).1,
        "n2" => ordered(v, |x| n2(&x[0])).1,
        "n3" => ordered(v, |x| n3(&x[0])).1,
        "box2" => ordered(v, box2).1,
        "box3" => ordered(v, box3).1,
        "circle" => ordered(v, circle).1,
        "sphere" => ordered(v, sphere).1,
        "fbox2" => ordered(v, |x| FilterBox2D::new(box2(x))).1,
        "fbox3" => ordered(v, |x| FilterBox3D::new(box3(x))).1,
        "fcircle" => ordered(v, |x| FilterCircle::new(circle(x))).1,
        "fsphere" => ordered(v, |x| FilterSphere::new(sphere(x))).1,
        "bb2" => ordered(v, |x| BoundingBox2D::new(&p2(&x[0]), &p2(&x[1])).expect("HARNESS")).1,
        "bb3" => ordered(v, |x| BoundingBox3D::new(&p3(&x[0]), &p3(&x[1])).expect("HARNESS")).1,
        "seg2" => hashed(v, |x| LineSegment2D::new(p2(&x[0]), p2(&x[1]))).1,
        "seg3" => hashed(v, |x| LineSegment3D::new(p3(&x[0]), p3(&x[1]))).1,
        "line2" => ordered(v, |x| Line2D::new(p2(&x[0]), n2(&x[1]))).1,
        "line3" => ordered(v, |x| Line3D::new(p3(&x[0]), n3(&x[1]))).1,
        "ray2" => ordered(v, |x| Ray2D::new(Line2D::new(p2(&x[0]), n2(&x[1])))).1,
        "ray3" => ordered(v, |x| Ray3D::new(Line3D::new(p3(&x[0]), n3(&x[1])))).1,
        "plane" => ordered(v, |x| <Plane3D<Point3D, Norm3D> as IsPlane3D<_, _>>::new(p3(&x[0]), n3(&x[1]), n3(&x[2]))).1,
        "pc2" => ordered(v, pc2).1,
        "pc3" => ordered(v, pc3).1,
        "poly2" => ordered(v, |x| Polygon2D::from(pc2(x))).1,
        "poly3" => ordered(v, |x| Polygon3D::from(pc3(x))).1,
        "face" => ordered(v, |x| Face3::new(VId(us(&x[0][0])), VId(us(&x[1][0])), VId(us(&x[2][0])))).1,
        "vid" => ordered(v, |x| VId(id(x))).1,
        "fid" => ordered(v, |x| FId(id(x))).1,
        "eid" => ordered(v, |x| EId(id(x))).1,
        "sid" => ordered(v, |x| SId(id(x))).1,
        "rgb" => ordered(v, |x| Rgb::new(us(&x[0][0]) as u8, us(&x[1][0]) as u8, us(&x[2][0]) as u8)).1,
        "kd" => ordered(v, |x| {
            let mut t = KdTree::default();
            t.build(pc3(x)).expect("HARNESS");
            t
        }).1,
        "oct" => {
            // an octree is not made of points without an extent
            if arr(v).iter().any(|x| {
                let mut t = OcTree::default();
                t.build(pc3(x)).is_err()
            }) {
                return json!("unbuildable");
            }
            ordered(v, |x| {
                let mut t = OcTree::default();
                t.build(pc3(x)).expect("HARNESS");
                t
            })
            .1
        }
        "mesh" => ordered(v, |x| net(x, true)).1,
        "he" => ordered(v, |x| HalfEdge::<Vec<usize>>::new(&net(x, false))).1,
        "pos" => {
            let (v, r) = hashed(v, |x| pos(c(&x[0][0])));
            less(r, v)
        }
        "non" => {
            let (v, r) = hashed(v, |x| NonNegative::new(c(&x[0][0])).expect("HARNESS"));
            less(r, v)
        }
        "f32" => same(v, |x| {
            let mut r = PointCloud3Df32::<Point3D>::with_capacity(2);
            arr(x).iter().for_each(|p| {
                r.push(p3(p));
            });
            r
        }).1,
        "m3" => same(v, |x| {
            let d = cs(&x[0]);
            let mut m = Matrix3::zeroes();
            for (i, y) in d.iter().enumerate() {
                m.data[i / 3][i % 3] = *y;
            }
            m
        }).1,
        "m4" => same(v, |x| {
            let d = cs(&x[0]);
            let mut m = Matrix4::zeroes();
            for (i, y) in d.iter().enumerate() {
                m.data[i / 4][i % 4] = *y;
            }
            m
        }).1,
        "view" => same(v, |x| {
            if arr(x).is_empty() {
                View::Full
            } else {
                View::Restricted(uss(&x[0]).into_iter().collect())
            }
        }).1,
        "comp" => same(v, |x| CompressedPointCloud3D::<u8>::compress(&pc3(x)).expect("HARNESS")).1,
        k => panic!("HARNESS kind {}", k),
    }
}
