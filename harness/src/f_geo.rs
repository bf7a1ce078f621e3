//! Geometric filters and bounding boxes (all numbers are quarter units).
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};

fn q(v: &Value, i: usize) -> f64 {
    fl(&v[i]) / 4.0
}
pub fn p3(v: &Value) -> Point3D {
    Point3D::new(co(q(v, 0), 0), co(q(v, 1), 1), co(q(v, 2), 2))
}
pub fn p2(v: &Value) -> Point2D {
    Point2D::new(co(q(v, 0), 0), co(q(v, 1), 1))
}
/// lengths
fn l3(v: &Value) -> Point3D {
    Point3D::new(le(q(v, 0)), le(q(v, 1)), le(q(v, 2)))
}
fn l2(v: &Value) -> Point2D {
    Point2D::new(le(q(v, 0)), le(q(v, 1)))
}
fn n4(x: f64) -> Value {
    num_s(unle(x), 4.0)
}
fn c4(x: f64, axis: usize) -> Value {
    num_s(unco(x, axis), 4.0)
}
fn t3(p: &Point3D) -> Value {
    json!([c4(p.x, 0), c4(p.y, 1), c4(p.z, 2)])
}
fn t2(p: &Point2D) -> Value {
    json!([c4(p.x, 0), c4(p.y, 1)])
}
fn pos(x: f64) -> Positive {
    Positive::new(x).expect("HARNESS positive")
}

fn region3<F>(case: &Value, mut f: F, bb: &dyn Fn(BoundingBox3D) -> Option<F>) -> Value
where
    F: IsEditable3D + IsBuildable3D + IsBuildableND + HasBoundingBox3D + IsFilter<Point3D> + IsScalable + Clone,
{
    history(case, |op| {
        let mut r = "ok";
        match st(&op["op"]) {
            "start" => {}
            "set" => match us(&op["d"]) {
                1 => f.set_x(co(fl(&op["v"]) / 4.0, 0)),
                2 => f.set_y(co(fl(&op["v"]) / 4.0, 1)),
                _ => f.set_z(co(fl(&op["v"]) / 4.0, 2)),
            },
            "pos" => {
                if f.set_position(us(&op["d"]) - 1, co(fl(&op["v"]) / 4.0, (us(&op["d"]) - 1).min(2))).is_err() {
                    r = "err"
                }
            }
            "from" => f.from(&p3(&op["p"])),
            "fromnd" => {
                if f.from_nd(p3(&op["p"])).is_err() {
                    r = "err"
                }
            }
            "new" => {
                let p = p3(&op["p"]);
                f = F::new(p.x, p.y, p.z);
                match F::new_nd(&[p.x, p.y, p.z]) {
                    Ok(g) if g.bounding_box() == f.bounding_box() => {}
                    _ => r = "new_nd differs",
                }
            }
            "scale2" => f.scale(pos(2.0)),
            "scalehalf" => f.scale(pos(0.5)),
            "bb" => {
                let (c, h) = (p3(&op["p"]), l3(&op["h"]));
                f = bb(BoundingBox3D::new(&(&c - &h), &(&c + &h)).expect("HARNESS")).expect("HARNESS");
            }
            _ => panic!("HARNESS"),
        }
        let b = f.bounding_box();
        if f.bounding_box_maybe() != Some(b.clone()) {
            r = "maybe differs"
        }
        if F::n_dimensions() != 3 {
            r = "n_dimensions"
        }
        for d in 0..4 {
            let want = match d {
                0 => Some(f.x()),
                1 => Some(f.y()),
                2 => Some(f.z()),
                _ => None,
            };
            if f.position_nd(d) != want {
                r = "position_nd differs"
            }
        }
        let a: Vec<bool> = arr(&op["q"]).iter().map(|x| f.is_allowed(&p3(x))).collect();
        json!({"r": r, "c": [c4(f.x(), 0), c4(f.y(), 1), c4(f.z(), 2)], "lo": t3(&b.min_p()), "hi": t3(&b.max_p()), "a": a})
    })
}

fn region2<F>(case: &Value, mut f: F, bb: &dyn Fn(BoundingBox2D) -> Option<F>) -> Value
where
    F: IsEditable2D + IsBuildable2D + IsBuildableND + HasBoundingBox2D + IsFilter<Point2D> + IsScalable + Clone,
{
    history(case, |op| {
        let mut r = "ok";
        match st(&op["op"]) {
            "start" => {}
            "set" => match us(&op["d"]) {
                1 => f.set_x(co(fl(&op["v"]) / 4.0, 0)),
                _ => f.set_y(co(fl(&op["v"]) / 4.0, 1)),
            },
            "pos" => {
                if f.set_position(us(&op["d"]) - 1, co(fl(&op["v"]) / 4.0, (us(&op["d"]) - 1).min(2))).is_err() {
                    r = "err"
                }
            }
            "from" => f.from(&p2(&op["p"])),
            "fromnd" => {
                if f.from_nd(p2(&op["p"])).is_err() {
                    r = "err"
                }
            }
            "new" => {
                let p = p2(&op["p"]);
                f = F::new(p.x, p.y);
                match F::new_nd(&[p.x, p.y]) {
                    Ok(g) if g.bounding_box() == f.bounding_box() => {}
                    _ => r = "new_nd differs",
                }
            }
            "scale2" => f.scale(pos(2.0)),
            "scalehalf" => f.scale(pos(0.5)),
            "bb" => {
                let (c, h) = (p2(&op["p"]), l2(&op["h"]));
                f = bb(BoundingBox2D::new(
                    &Point2D::new(c.x - h.x, c.y - h.y),
                    &Point2D::new(c.x + h.x, c.y + h.y),
                )
                .expect("HARNESS"))
                .expect("HARNESS");
            }
            _ => panic!("HARNESS"),
        }
        let b = f.bounding_box();
        if f.bounding_box_maybe() != Some(b.clone()) {
            r = "maybe differs"
        }
        if F::n_dimensions() != 2 {
            r = "n_dimensions"
        }
        for d in 0..3 {
            let want = match d {
                0 => Some(f.x()),
                1 => Some(f.y()),
                _ => None,
            };
            if f.position_nd(d) != want {
                r = "position_nd differs"
            }
        }
        let a: Vec<bool> = arr(&op["q"]).iter().map(|x| f.is_allowed(&p2(x))).collect();
        json!({"r": r, "c": [c4(f.x(), 0), c4(f.y(), 1)], "lo": t2(&b.min_p()), "hi": t2(&b.max_p()), "a": a})
    })
}

pub fn region(case: &Value) -> Value {
    let (c, h) = (&case["c"], &case["h"]);
    match st(&case["kind"]) {
        "box2" => region2(
            case,
            FilterBox2D::new(Box2D {
                center: p2(c),
                size_x: pos(le(2.0 * q(h, 0))),
                size_y: pos(le(2.0 * q(h, 1))),
            }),
            &|b| Some(<FilterBox2D as From<BoundingBox2D>>::from(b)),
        ),
        "box3" => region3(
            case,
            FilterBox3D::new(Box3D {
                center: p3(c),
                size_x: pos(le(2.0 * q(h, 0))),
                size_y: pos(le(2.0 * q(h, 1))),
                size_z: pos(le(2.0 * q(h, 2))),
            }),
            &|b| Some(<FilterBox3D as From<BoundingBox3D>>::from(b)),
        ),
        "circle" => region2(
            case,
            FilterCircle::new(Circle {
                center: p2(c),
                radius: pos(le(q(h, 0))),
            }),
            &|_| None,
        ),
        _ => region3(
            case,
            FilterSphere::new(Sphere {
                center: p3(c),
                radius: pos(le(q(h, 0))),
            }),
            &|_| None,
        ),
    }
}

pub fn outlier(case: &Value) -> Value {
    let mut pc = PointCloud3D::new();
    for p in arr(&case["P"]) {
        let p = fls(p);
        pc.push(Point3D::new(co(p[0], 0), co(p[1], 1), co(p[2], 2)));
    }
    let mut tree = KdTree::default();
    if tree.build(pc).is_err() {
        return json!("build failed");
    }
    // the search distance may come by scaling
    let (n, d) = match us(&case["m"]) % 3 {
        0 => (1.0, 1.0),
        1 => (2.0, 0.5),
        _ => (0.25, 4.0),
    };
    let mut f = FilterOutlier3D::new(tree, pos(le(fl(&case["r"]) * n)), us(&case["m"]));
    f.scale(pos(d));
    json!(arr(&case["Q"])
        .iter()
        .map(|p| {
            let p = fls(p);
            IsFilter::<Point3D>::is_allowed(&f, &Point3D::new(co(p[0], 0), co(p[1], 1), co(p[2], 2)))
        })
        .collect::<Vec<bool>>())
}

fn bb3(src: &str, pts: &[Point3D]) -> Option<BoundingBox3D> {
    let pc = || PointCloud3D {
        data: pts.to_vec(),
    };
    match src {
        "iter" => BoundingBox3D::from_iterator(pts).ok(),
        "into" => BoundingBox3D::from_into_iterator(pts.to_vec()).ok(),
        "pc" => pc().bounding_box_maybe(),
        "f32" => {
            let mut c = PointCloud3Df32::<Point3D>::new();
            for p in pts {
                c.push(p.clone());
            }
            c.bounding_box_maybe()
        }
        "mesh" => {
            let m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = From::from((pc(), vec![]));
            HasBoundingBox3DConverted::new(m).map(|x| {
                assert!(x.get().num_vertices() == pts.len() && x.bounding_box_maybe() == Some(x.bounding_box()), "HARNESS-DIFF");
                x.bounding_box()
            })
        }
        "smesh" => {
            let m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = From::from((pc(), vec![]));
            SearchableMesh::<_, Point3D, Vec<usize>>::new(m).bounding_box_maybe()
        }
        "poly" => {
            let mut c = Polygon3D::<Point3D>::default();
            for p in pts {
                c.add_vertex(p.clone());
            }
            c.bounding_box_maybe()
        }
        "seg" => LineSegment3D::new(pts[0].clone(), pts[1].clone()).bounding_box_maybe(),
        "tri" => TriFace3D::new(pts[0].clone(), pts[1].clone(), pts[2].clone())
            .ok()
            .map(|x| x.bounding_box()),
        _ => panic!("HARNESS"),
    }
}

fn bb2(src: &str, pts: &[Point2D]) -> Option<BoundingBox2D> {
    match src {
        "iter" => BoundingBox2D::from_iterator(pts).ok(),
        "into" => BoundingBox2D::from_into_iterator(pts.to_vec()).ok(),
        "pc" => HasBoundingBox2DConverted::new(PointCloud2D {
            data: pts.to_vec(),
        })
        .map(|x| {
            assert!(x.get().data == pts && x.bounding_box_maybe() == Some(x.bounding_box()), "HARNESS-DIFF");
            x.bounding_box()
        }),
        "poly" => {
            let mut c = Polygon2D::<Point2D>::default();
            for p in pts {
                c.add_vertex(p.clone());
            }
            c.bounding_box_maybe()
        }
        "seg" => LineSegment2D::new(pts[0].clone(), pts[1].clone()).bounding_box_maybe(),
        _ => panic!("HARNESS"),
    }
}

fn n16(x: NonNegative) -> Value {
    num_s(unle(unle(*x)), 16.0)
}

fn bbox3(case: &Value) -> Value {
    // the default box, in the frame
    let unit = || {
        let d = BoundingBox3D::default();
        let p = |p: Point3D| Point3D::new(co(p.x, 0), co(p.y, 1), co(p.z, 2));
        BoundingBox3D::new(&p(d.min_p()), &p(d.max_p())).expect("HARNESS")
    };
    let (mut a, mut b) = (unit(), unit());
    history(case, |op| {
        let mut r = "ok".to_string();
        match st(&op["op"]) {
            "start" => {}
            "new" => match BoundingBox3D::new(&p3(&op["lo"]), &p3(&op["hi"])) {
                Ok(x) => a = x,
                Err(_) => r = "err".into(),
            },
            "pts" => {
                let pts: Vec<Point3D> = arr(&op["P"]).iter().map(p3).collect();
                match bb3(st(&op["src"]), &pts) {
                    Some(x) => a = x,
                    None => r = "err".into(),
                }
            }
            "swap" => std::mem::swap(&mut a, &mut b),
            "consume" => a.consume(b.clone()),
            "combine" => a = a.combine(&b),
            "move" => {
                let p = l3(&op["p"]);
                a.move_by(p.x, p.y, p.z)
            }
            "scale3" => a.scale(pos(3.0)),
            _ => panic!("HARNESS"),
        }
        let pts: Vec<Point3D> = arr(&op["q"]).iter().map(p3).collect();
        let t = |p: Point3D| t3(&p);
        let c = a.center_bb();
        let cs = a.corners();
        // corners: all different, each made of the extremes
        let mut uniq = vec![];
        for k in cs.iter() {
            let ok = (k.x == a.min_p().x || k.x == a.max_p().x)
                && (k.y == a.min_p().y || k.y == a.max_p().y)
                && (k.z == a.min_p().z || k.z == a.max_p().z);
            if ok && !uniq.contains(k) {
                uniq.push(k.clone())
            }
        }
        if HasBoundingBox3D::bounding_box(&a) != a || a.bounding_box_maybe() != Some(a.clone()) {
            r = "bounding_box differs".into()
        }
        let nd: Vec<Option<f64>> = (0..4).map(|d| a.position_nd(d)).collect();
        if (a.x(), a.y(), a.z()) != (c.x, c.y, c.z) || nd != [Some(c.x), Some(c.y), Some(c.z), None] || BoundingBox3D::n_dimensions() != 3 {
            r = "position differs".into()
        }
        let x: Box3D = a.clone().into();
        if (t3(&x.min_p()), t3(&x.max_p()), t3(&x.center)) != (t3(&a.min_p()), t3(&a.max_p()), t3(&c)) || Box3D::n_dimensions() != 3 {
            r = "box differs".into()
        }
        if a.sizes() != [a.size_x(), a.size_y(), a.size_z()] {
            r = "sizes differ".into()
        }
        for p in &pts {
            let d = a.distance(p);
            if (unle(*d) * unle(*d) - unle(unle(*a.sqr_distance(p)))).abs() > 1e-6 {
                r = "distance differs".into()
            }
        }
        json!({"r": r, "alo": t(a.min_p()), "ahi": t(a.max_p()), "blo": t(b.min_p()), "bhi": t(b.max_p()),
            "c2": [num_s(unco(c.x, 0), 8.0), num_s(unco(c.y, 1), 8.0), num_s(unco(c.z, 2), 8.0)],
            "size": [n4(*a.size_x()), n4(*a.size_y()), n4(*a.size_z())],
            "corners": uniq.len(),
            "contains": pts.iter().map(|p| a.contains(p)).collect::<Vec<_>>(),
            "pd": pts.iter().map(|p| n16(a.sqr_distance(p))).collect::<Vec<_>>(),
            "cross": [pts.iter().map(|p| a.crossing_x_value(p.x)).collect::<Vec<_>>(),
                pts.iter().map(|p| a.crossing_y_value(p.y)).collect::<Vec<_>>(),
                pts.iter().map(|p| a.crossing_z_value(p.z)).collect::<Vec<_>>()],
            "inside": [a.is_inside(&b), b.is_inside(&a)], "hasin": [a.has_inside(&b), b.has_inside(&a)],
            "coll": [a.collides_with(&b), b.collides_with(&a)],
            "bd": n16(HasDistanceTo::<BoundingBox3D>::sqr_distance(&a, &b))})
    })
}

fn bbox2(case: &Value) -> Value {
    let unit = || {
        let d = BoundingBox2D::default();
        let p = |p: Point2D| Point2D::new(co(p.x, 0), co(p.y, 1));
        BoundingBox2D::new(&p(d.min_p()), &p(d.max_p())).expect("HARNESS")
    };
    let (mut a, mut b) = (unit(), unit());
    history(case, |op| {
        let mut r = "ok".to_string();
        match st(&op["op"]) {
            "start" => {}
            "new" => match BoundingBox2D::new(&p2(&op["lo"]), &p2(&op["hi"])) {
                Ok(x) => a = x,
                Err(_) => r = "err".into(),
            },
            "pts" => {
                let pts: Vec<Point2D> = arr(&op["P"]).iter().map(p2).collect();
                match bb2(st(&op["src"]), &pts) {
                    Some(x) => a = x,
                    None => r = "err".into(),
                }
            }
            "swap" => std::mem::swap(&mut a, &mut b),
            "consume" => a.consume(b.clone()),
            "combine" => a = a.combine(&b),
            "move" => {
                let p = l2(&op["p"]);
                a.move_by(p.x, p.y)
            }
            "scale3" => a.scale(pos(3.0)),
            _ => panic!("HARNESS"),
        }
        let pts: Vec<Point2D> = arr(&op["q"]).iter().map(p2).collect();
        let t = |p: Point2D| t2(&p);
        let c = a.center_bb();
        let cs = a.corners();
        let mut uniq = vec![];
        for k in cs.iter() {
            let ok = (k.x == a.min_p().x || k.x == a.max_p().x) && (k.y == a.min_p().y || k.y == a.max_p().y);
            if ok && !uniq.contains(k) {
                uniq.push(k.clone())
            }
        }
        if HasBoundingBox2D::bounding_box(&a) != a || a.bounding_box_maybe() != Some(a.clone()) {
            r = "bounding_box differs".into()
        }
        let nd: Vec<Option<f64>> = (0..3).map(|d| a.position_nd(d)).collect();
        if (a.x(), a.y()) != (c.x, c.y) || nd != [Some(c.x), Some(c.y), None] || BoundingBox2D::n_dimensions() != 2 {
            r = "position differs".into()
        }
        let x: Box2D = a.clone().into();
        if (t2(&x.min_p()), t2(&x.max_p()), t2(&x.center)) != (t2(&a.min_p()), t2(&a.max_p()), t2(&c)) || Box2D::n_dimensions() != 2 {
            r = "box differs".into()
        }
        if a.sizes() != [a.size_x(), a.size_y()] {
            r = "sizes differ".into()
        }
        for p in &pts {
            let d = a.distance(p);
            if (unle(*d) * unle(*d) - unle(unle(*a.sqr_distance(p)))).abs() > 1e-6 {
                r = "distance differs".into()
            }
        }
        json!({"r": r, "alo": t(a.min_p()), "ahi": t(a.max_p()), "blo": t(b.min_p()), "bhi": t(b.max_p()),
            "c2": [num_s(unco(c.x, 0), 8.0), num_s(unco(c.y, 1), 8.0)],
            "size": [n4(*a.size_x()), n4(*a.size_y())],
            "corners": uniq.len(),
            "contains": pts.iter().map(|p| a.contains(p)).collect::<Vec<_>>(),
            "pd": pts.iter().map(|p| n16(a.sqr_distance(p))).collect::<Vec<_>>(),
            "cross": [pts.iter().map(|p| a.crossing_x_value(p.x)).collect::<Vec<_>>(),
                pts.iter().map(|p| a.crossing_y_value(p.y)).collect::<Vec<_>>()],
            "inside": [a.is_inside(&b), b.is_inside(&a)], "hasin": [a.has_inside(&b), b.has_inside(&a)],
            "coll": [a.collides_with(&b), b.collides_with(&a)],
            "bd": n16(HasDistanceTo::<BoundingBox2D>::sqr_distance(&a, &b))})
    })
}

pub fn bbox(case: &Value) -> Value {
    if us(&case["dim"]) == 2 {
        bbox2(case)
    } else {
        bbox3(case)
    }
}
