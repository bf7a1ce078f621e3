//! C41: moving, scaling, rotating, matrices and pipelines on everything that has a place
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::collections::{LinkedList, VecDeque};

type Mesh = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
type Sm = SearchableMesh<Mesh, Point3D, Vec<usize>>;

enum O3 {
    Pt(Point3D),
    Pc(PointCloud3D<Point3D>),
    Poly(Polygon3D<Point3D>),
    Mesh(Mesh),
    Seg(LineSegment3D),
    Vec(Vec<Point3D>),
    Deque(VecDeque<Point3D>),
    List(LinkedList<Point3D>),
    F32(PointCloud3Df32<Point3D>),
    Bb(BoundingBox3D),
    Box(Box3D),
    Ball(Sphere),
    Ubox(BoxUnaligned3D),
    Line(Line3D),
    Ray(Ray3D),
}
enum O2 {
    Pt(Point2D),
    Pc(PointCloud2D<Point2D>),
    Poly(Polygon2D<Point2D>),
    Seg(LineSegment2D),
    Vec(Vec<Point2D>),
    Deque(VecDeque<Point2D>),
    List(LinkedList<Point2D>),
    Bb(BoundingBox2D),
    Box(Box2D),
    Ball(Circle),
    Line(Line2D),
    Ray(Ray2D),
}

fn pos(x: f64) -> Positive {
    Positive::new(x).expect("HARNESS positive")
}
fn v3(v: &Value) -> [f64; 3] {
    let a = fls(v);
    [a[0], a[1], a[2]]
}
fn rad(v: &Value) -> Rad {
    let a = fls(v);
    Rad(a[1].atan2(a[0]))
}
fn axis(op: &Value) -> Norm3D {
    let [x, y, z] = v3(&op["u"]);
    Norm3D::new(Point3D::new(x, y, z)).unwrap()
}
fn dir3() -> Norm3D {
    Norm3D::new(Point3D::new(2.0, -2.0, 1.0)).unwrap()
}
fn dir2() -> Norm2D {
    Norm2D::new(Point2D::new(3.0, -4.0)).unwrap()
}

fn m4(m: &Value, v: &Value) -> Matrix4 {
    let r: Vec<[f64; 3]> = arr(m).iter().map(v3).collect();
    let t = v3(v);
    let diag = (0..3).all(|i| (0..3).all(|j| i == j || r[i][j] == 0.0));
    if diag && t == [0.0; 3] {
        return Matrix4::scale(r[0][0], r[1][1], r[2][2]);
    }
    if diag && (0..3).all(|i| r[i][i] == 1.0) {
        return Matrix4::translation(t[0], t[1], t[2]);
    }
    let mut res = Matrix4::identity();
    for i in 0..3 {
        for j in 0..3 {
            res.data[i][j] = r[i][j];
        }
        res.data[i][3] = t[i];
    }
    res
}
fn m3(m: &Value, v: &Value) -> Matrix3 {
    let r: Vec<[f64; 3]> = arr(m).iter().map(v3).collect();
    let t = v3(v);
    let diag = r[0][1] == 0.0 && r[1][0] == 0.0;
    if diag && t[0] == 0.0 && t[1] == 0.0 {
        return Matrix3::scale(r[0][0], r[1][1]);
    }
    if diag && r[0][0] == 1.0 && r[1][1] == 1.0 {
        return Matrix3::translation(t[0], t[1]);
    }
    let mut res = Matrix3::identity();
    for i in 0..2 {
        for j in 0..2 {
            res.data[i][j] = r[i][j];
        }
        res.data[i][2] = t[i];
    }
    res
}
fn halved4(m: Matrix4, q: f64) -> Matrix4 {
    if q == 1.0 {
        return m;
    }
    let (a, b) = (&m * (1.0 / q), m * (1.0 / q));
    assert!(a == b, "HARNESS-DIFF");
    a
}
fn halved3(m: Matrix3, q: f64) -> Matrix3 {
    if q == 1.0 {
        return m;
    }
    let (a, b) = (&m * (1.0 / q), m * (1.0 / q));
    assert!(a == b, "HARNESS-DIFF");
    a
}
fn prod4(a: Matrix4, b: Matrix4) -> Matrix4 {
    let (x, y, z) = (&a * &b, a.clone() * &b, a * b);
    assert!(x == y && y == z, "HARNESS-DIFF");
    x
}
fn prod3(a: Matrix3, b: Matrix3) -> Matrix3 {
    let (x, y, z) = (&a * &b, a.clone() * &b, a * b);
    assert!(x == y && y == z, "HARNESS-DIFF");
    x
}

fn tr<T: IsMatrix4Transformable>(x: &mut T, m: &Matrix4, same: &dyn Fn(&T, &T) -> bool) {
    let t = x.transformed(m);
    x.transform(m);
    assert!(same(&t, x), "HARNESS-DIFF");
}
fn tr2<T: IsMatrix3Transformable>(x: &mut T, m: &Matrix3, same: &dyn Fn(&T, &T) -> bool) {
    let t = x.transformed(m);
    x.transform(m);
    assert!(same(&t, x), "HARNESS-DIFF");
}

fn mesh_pts(m: &Mesh) -> Vec<Point3D> {
    (0..m.num_vertices()).map(|i| m.vertex(VId(i)).unwrap()).collect()
}
fn poly_pts(m: &Polygon3D<Point3D>) -> Vec<Point3D> {
    (0..m.num_segments()).map(|i| m.vertex(VId(i)).unwrap()).collect()
}
fn poly_pts2(m: &Polygon2D<Point2D>) -> Vec<Point2D> {
    (0..m.num_segments()).map(|i| m.vertex(VId(i)).unwrap()).collect()
}

fn make3(kind: &str, p: &[Point3D], s: &[f64]) -> O3 {
    match kind {
        "pt" => O3::Pt(p[0].clone()),
        "pc" => O3::Pc(PointCloud3D { data: p.to_vec() }),
        "poly" => {
            let mut c = Polygon3D::default();
            for x in p {
                c.add_vertex(x.clone());
            }
            O3::Poly(c)
        }
        "mesh" => {
            let mut m = Mesh::default();
            for x in p {
                m.add_vertex(x.clone());
            }
            for i in 2..p.len() {
                m.try_add_connection(VId(0), VId(i - 1), VId(i)).unwrap();
            }
            O3::Mesh(m)
        }
        "seg" => O3::Seg(LineSegment3D::new(p[0].clone(), p[1].clone())),
        "vec" => O3::Vec(p.to_vec()),
        "deque" => O3::Deque(p.iter().cloned().collect()),
        "list" => O3::List(p.iter().cloned().collect()),
        "f32" => {
            let mut c = PointCloud3Df32::new();
            for x in p {
                c.push(x.clone());
            }
            O3::F32(c)
        }
        "bb" => O3::Bb(BoundingBox3D::new(&p[0], &p[1]).unwrap()),
        "box" => O3::Box(Box3D { center: p[0].clone(), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) }),
        "ball" => O3::Ball(Sphere { center: p[0].clone(), radius: pos(s[0]) }),
        "ubox" => O3::Ubox(BoxUnaligned3D::new_from_z_rotation(&p[0], [pos(s[0]), pos(s[1]), pos(s[2])], 0.0)),
        "line" => O3::Line(Line3D::new(p[0].clone(), dir3())),
        "ray" => O3::Ray(Ray3D::new(Line3D::new(p[0].clone(), dir3()))),
        _ => panic!("HARNESS"),
    }
}
fn make2(kind: &str, p: &[Point2D], s: &[f64]) -> O2 {
    match kind {
        "pt" => O2::Pt(p[0].clone()),
        "pc" => O2::Pc(PointCloud2D { data: p.to_vec() }),
        "poly" => {
            let mut c = Polygon2D::default();
            for x in p {
                c.add_vertex(x.clone());
            }
            O2::Poly(c)
        }
        "seg" => O2::Seg(LineSegment2D::new(p[0].clone(), p[1].clone())),
        "vec" => O2::Vec(p.to_vec()),
        "deque" => O2::Deque(p.iter().cloned().collect()),
        "list" => O2::List(p.iter().cloned().collect()),
        "bb" => O2::Bb(BoundingBox2D::new(&p[0], &p[1]).unwrap()),
        "box" => O2::Box(Box2D { center: p[0].clone(), size_x: pos(s[0]), size_y: pos(s[1]) }),
        "ball" => O2::Ball(Circle { center: p[0].clone(), radius: pos(s[0]) }),
        "line" => O2::Line(Line2D::new(p[0].clone(), dir2())),
        "ray" => O2::Ray(Ray2D::new(Line2D::new(p[0].clone(), dir2()))),
        _ => panic!("HARNESS"),
    }
}

impl O3 {
    fn mov(&mut self, v: [f64; 3]) {
        let [x, y, z] = v;
        match self {
            O3::Pt(o) => o.move_by(x, y, z),
            O3::Pc(o) => o.move_by(x, y, z),
            O3::Poly(o) => o.move_by(x, y, z),
            O3::Mesh(o) => o.move_by(x, y, z),
            O3::Seg(o) => o.move_by(x, y, z),
            O3::Vec(o) => IsMovable3D::move_by(o, x, y, z),
            O3::Deque(o) => IsMovable3D::move_by(o, x, y, z),
            O3::List(o) => IsMovable3D::move_by(o, x, y, z),
            O3::F32(o) => o.move_by(x, y, z),
            O3::Bb(o) => o.move_by(x, y, z),
            O3::Box(o) => o.move_by(x, y, z),
            O3::Ubox(o) => o.move_by(x, y, z),
            O3::Line(o) => o.move_by(x, y, z),
            O3::Ray(o) => o.move_by(x, y, z),
            O3::Ball(_) => panic!("HARNESS"),
        }
    }
    fn scale(&mut self, f: Positive) {
        match self {
            O3::Pc(o) => o.scale(f),
            O3::Poly(o) => o.scale(f),
            O3::Mesh(o) => {
                let mut w = Sm::new(o.clone());
                o.scale(f);
                w.scale(f);
                assert!(mesh_pts(w.mesh()) == mesh_pts(o) && w.num_faces() == o.num_faces(), "HARNESS-DIFF");
            }
            O3::Seg(o) => o.scale(f),
            O3::Bb(o) => o.scale(f),
            O3::Box(o) => o.scale(f),
            O3::Ball(o) => o.scale(f),
            _ => panic!("HARNESS"),
        }
    }
    fn transform(&mut self, m: &Matrix4) {
        match self {
            O3::Pt(o) => {
                assert!(o.multiply_m(m) == o.transformed(m), "HARNESS-DIFF");
                tr(o, m, &|a, b| a == b)
            }
            O3::Pc(o) => tr(o, m, &|a, b| a.data == b.data),
            O3::Poly(o) => tr(o, m, &|a, b| poly_pts(a) == poly_pts(b)),
            O3::Mesh(o) => tr(o, m, &|a, b| mesh_pts(a) == mesh_pts(b) && a.num_faces() == b.num_faces()),
            O3::Seg(o) => tr(o, m, &|a, b| a == b),
            _ => panic!("HARNESS"),
        }
    }
    fn center(&mut self) {
        match self {
            O3::Pc(o) => center(o),
            O3::Poly(o) => center(o),
            O3::Mesh(o) => center(o),
            O3::Seg(o) => center(o),
            O3::Bb(o) => center(o),
            O3::Box(o) => center(o),
            _ => panic!("HARNESS"),
        }
    }
    fn size(&mut self, s: [f64; 3]) {
        let s = [pos(s[0]), pos(s[1]), pos(s[2])];
        match self {
            O3::Pc(o) => set_size(o, s),
            O3::Poly(o) => set_size(o, s),
            O3::Mesh(o) => set_size(o, s),
            O3::Seg(o) => set_size(o, s),
            _ => panic!("HARNESS"),
        }
    }
    fn obs(&self, den: f64) -> Value {
        let (p, s, bb, cog): (Vec<Point3D>, Vec<f64>, Option<BoundingBox3D>, Option<Point3D>) = match self {
            O3::Pt(o) => (vec![o.clone()], vec![], None, None),
            O3::Pc(o) => (o.data.clone(), vec![], o.bounding_box_maybe(), o.center_of_gravity()),
            O3::Poly(o) => (poly_pts(o), vec![], o.bounding_box_maybe(), o.center_of_gravity()),
            O3::Mesh(o) => {
                let n = o.num_vertices();
                let faces = (2..n).all(|i| o.face_vertex_ids(FId(i - 2)) == Some(Face3::new(VId(0), VId(i - 1), VId(i))));
                if !faces || o.num_faces() != n.saturating_sub(2) {
                    return json!("faces changed");
                }
                let w = Sm::new(o.clone());
                if w.bounding_box_maybe() != o.bounding_box_maybe() || w.center_of_gravity() != o.center_of_gravity() {
                    return json!("searchable mesh differs");
                }
                (mesh_pts(o), vec![], o.bounding_box_maybe(), o.center_of_gravity())
            }
            O3::Seg(o) => (vec![o.start.clone(), o.end.clone()], vec![], o.bounding_box_maybe(), o.center_of_gravity()),
            O3::Vec(o) => (o.clone(), vec![], None, None),
            O3::Deque(o) => (o.iter().cloned().collect(), vec![], None, None),
            O3::List(o) => (o.iter().cloned().collect(), vec![], None, None),
            O3::F32(o) => ((0..o.len_d()).map(|i| o.get_d(i).unwrap()).collect(), vec![], o.bounding_box_maybe(), None),
            O3::Bb(o) => (vec![o.min_p(), o.max_p()], vec![], o.bounding_box_maybe(), None),
            O3::Box(o) => {
                if o.sizes() != [o.size_x, o.size_y, o.size_z] || [o.min_p(), o.max_p()] != [o.bounding_box().min_p(), o.bounding_box().max_p()] {
                    return json!("corners and sizes differ");
                }
                (vec![o.center.clone()], vec![*o.size_x, *o.size_y, *o.size_z], o.bounding_box_maybe(), None)
            }
            O3::Ball(o) => (vec![o.center.clone()], vec![*o.radius], o.bounding_box_maybe(), None),
            O3::Ubox(o) => {
                let b = o.bounding_box();
                (vec![b.center_bb()], b.sizes().iter().map(|x| **x).collect(), Some(b), None)
            }
            O3::Line(o) => {
                if o.dir != dir3() {
                    return json!("direction changed");
                }
                (vec![o.anchor.clone()], vec![], None, None)
            }
            O3::Ray(o) => {
                if o.line.dir != dir3() {
                    return json!("direction changed");
                }
                (vec![o.line.anchor.clone()], vec![], None, None)
            }
        };
        let n = p.len() as f64;
        let q = |p: &Point3D, k: f64| json!(p.xyz().iter().map(|x| num_s(*x, k)).collect::<Vec<_>>());
        json!({"P": p.iter().map(|x| q(x, den)).collect::<Vec<_>>(),
               "S": s.iter().map(|x| num_s(*x, den)).collect::<Vec<_>>(),
               "bb": bb.map(|b| json!([q(&b.min_p(), 2.0 * den), q(&b.max_p(), 2.0 * den)])).unwrap_or(json!([])),
               "cog": cog.map(|c| q(&c, den * n)).unwrap_or(json!([]))})
    }
}

impl O2 {
    fn mov(&mut self, v: [f64; 3]) {
        let [x, y, _] = v;
        match self {
            O2::Pt(o) => o.move_by(x, y),
            O2::Pc(o) => o.move_by(x, y),
            O2::Poly(o) => o.move_by(x, y),
            O2::Seg(o) => o.move_by(x, y),
            O2::Vec(o) => IsMovable2D::move_by(o, x, y),
            O2::Deque(o) => IsMovable2D::move_by(o, x, y),
            O2::List(o) => IsMovable2D::move_by(o, x, y),
            O2::Bb(o) => o.move_by(x, y),
            O2::Box(o) => o.move_by(x, y),
            O2::Line(o) => o.move_by(x, y),
            O2::Ray(o) => o.move_by(x, y),
            O2::Ball(_) => panic!("HARNESS"),
        }
    }
    fn scale(&mut self, f: Positive) {
        match self {
            O2::Pc(o) => o.scale(f),
            O2::Poly(o) => o.scale(f),
            O2::Seg(o) => o.scale(f),
            O2::Bb(o) => o.scale(f),
            O2::Box(o) => o.scale(f),
            O2::Ball(o) => o.scale(f),
            _ => panic!("HARNESS"),
        }
    }
    fn transform(&mut self, m: &Matrix3) {
        match self {
            O2::Pt(o) => {
                assert!(o.multiply_m(m) == o.transformed(m), "HARNESS-DIFF");
                tr2(o, m, &|a, b| a == b)
            }
            O2::Pc(o) => tr2(o, m, &|a, b| a.data == b.data),
            O2::Poly(o) => tr2(o, m, &|a, b| poly_pts2(a) == poly_pts2(b)),
            O2::Seg(o) => tr2(o, m, &|a, b| a == b),
            _ => panic!("HARNESS"),
        }
    }
    fn obs(&self, den: f64) -> Value {
        let (p, s, bb, cog): (Vec<Point2D>, Vec<f64>, Option<BoundingBox2D>, Option<Point2D>) = match self {
            O2::Pt(o) => (vec![o.clone()], vec![], None, None),
            O2::Pc(o) => (o.data.clone(), vec![], o.bounding_box_maybe(), o.center_of_gravity()),
            O2::Poly(o) => (poly_pts2(o), vec![], o.bounding_box_maybe(), o.center_of_gravity()),
            O2::Seg(o) => (vec![o.start.clone(), o.end.clone()], vec![], o.bounding_box_maybe(), o.center_of_gravity()),
            O2::Vec(o) => (o.clone(), vec![], None, None),
            O2::Deque(o) => (o.iter().cloned().collect(), vec![], None, None),
            O2::List(o) => (o.iter().cloned().collect(), vec![], None, None),
            O2::Bb(o) => (vec![o.min_p(), o.max_p()], vec![], o.bounding_box_maybe(), None),
            O2::Box(o) => {
                if o.sizes() != [o.size_x, o.size_y] || [o.min_p(), o.max_p()] != [o.bounding_box().min_p(), o.bounding_box().max_p()] {
                    return json!("corners and sizes differ");
                }
                (vec![o.center.clone()], vec![*o.size_x, *o.size_y], o.bounding_box_maybe(), None)
            }
            O2::Ball(o) => (vec![o.center.clone()], vec![*o.radius], o.bounding_box_maybe(), None),
            O2::Line(o) => {
                if o.dir != dir2() {
                    return json!("direction changed");
                }
                (vec![o.anchor.clone()], vec![], None, None)
            }
            O2::Ray(o) => {
                if o.line.dir != dir2() {
                    return json!("direction changed");
                }
                (vec![o.line.anchor.clone()], vec![], None, None)
            }
        };
        let n = p.len() as f64;
        let q = |p: &Point2D, k: f64| json!(p.xy().iter().map(|x| num_s(*x, k)).collect::<Vec<_>>());
        json!({"P": p.iter().map(|x| q(x, den)).collect::<Vec<_>>(),
               "S": s.iter().map(|x| num_s(*x, den)).collect::<Vec<_>>(),
               "bb": bb.map(|b| json!([q(&b.min_p(), 2.0 * den), q(&b.max_p(), 2.0 * den)])).unwrap_or(json!([])),
               "cog": cog.map(|c| q(&c, den * n)).unwrap_or(json!([]))})
    }
}

pub fn xform(case: &Value) -> Value {
    let kind = st(&case["kind"]);
    let s = fls(&case["S"]);
    let p: Vec<[f64; 3]> = arr(&case["P"]).iter().map(v3).collect();
    if us(&case["dim"]) == 3 {
        let p: Vec<_> = p.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect();
        let mut o = make3(kind, &p, &s);
        let mut pipe = Matrix4Pipe::default();
        history(case, |op| {
            let f = || pos(fl(&op["n"]) / fl(&op["m"]));
            match st(&op["op"]) {
                "start" => {}
                "move" => o.mov(v3(&op["v"])),
                "scale" => o.scale(f()),
                "away" => {
                    if let O3::Pt(p) = &mut o {
                        let [x, y, z] = v3(&op["v"]);
                        p.increase_distance_to_by(&Point3D::new(x, y, z), f())
                    }
                }
                "mat" => o.transform(&halved4(m4(&op["M"], &op["v"]), fl(&op["q"]))),
                "mul" => o.transform(&prod4(m4(&op["M"], &op["v"]), m4(&op["M2"], &op["v2"]))),
                "rot" => o.transform(&Matrix4::rotation(rad(&op["x"]), rad(&op["y"]), rad(&op["z"]))),
                "axis" => o.transform(&Matrix4::rotation_axis(&axis(op), rad(&op["z"]))),
                "center" => o.center(),
                "size" => o.size(v3(&op["v"])),
                "pt" => {
                    let [x, y, z] = v3(&op["v"]);
                    pipe.add_translation(x, y, z)
                }
                "pc" => {
                    let [x, y, z] = v3(&op["v"]);
                    pipe.add_camera_translation(x, y, z)
                }
                "ps" => {
                    let [x, y, z] = v3(&op["v"]);
                    pipe.add_scale(x, y, z)
                }
                "pr" => pipe.add_rotation(rad(&op["x"]), rad(&op["y"]), rad(&op["z"])),
                "pa" => pipe.add_rotation_axis(&axis(op), rad(&op["z"])),
                "pt-" => pipe.remove_translation(),
                "pc-" => pipe.remove_camera_translation(),
                "ps-" => pipe.remove_scale(),
                "pr-" => pipe.remove_rotation(),
                "cam" => {
                    pipe.add_perspective(1.0, 9.0, Rad(1.0));
                    pipe.remove_perspective();
                    pipe.add_look_at(&Point3D::new(1.0, 2.0, 3.0), &Norm3D::norm_z()).expect("HARNESS-DIFF");
                    pipe.remove_look_at();
                    assert!(pipe.add_look_at(&Point3D::new(0.0, 0.0, 0.0), &Norm3D::norm_z()).is_err(), "HARNESS-DIFF");
                }
                "pipe" => o.transform(&pipe.result()),
                x => panic!("HARNESS {}", x),
            }
            o.obs(fl(&op["den"]))
        })
    } else {
        let p: Vec<_> = p.iter().map(|p| Point2D::new(p[0], p[1])).collect();
        let mut o = make2(kind, &p, &s);
        let mut pipe = Matrix3Pipe::default();
        history(case, |op| {
            let f = || pos(fl(&op["n"]) / fl(&op["m"]));
            match st(&op["op"]) {
                "start" => {}
                "move" => o.mov(v3(&op["v"])),
                "scale" => o.scale(f()),
                "away" | "turn" => {
                    if let O2::Pt(p) = &mut o {
                        let [x, y, _] = v3(&op["v"]);
                        let c = Point2D::new(x, y);
                        if st(&op["op"]) == "away" {
                            p.increase_distance_to_by(&c, f())
                        } else {
                            p.rotate(rad(&op["z"]), &c)
                        }
                    }
                }
                "mat" => o.transform(&halved3(m3(&op["M"], &op["v"]), fl(&op["q"]))),
                "mul" => o.transform(&prod3(m3(&op["M"], &op["v"]), m3(&op["M2"], &op["v2"]))),
                "rot" => o.transform(&Matrix3::rotation(rad(&op["z"]))),
                "pt" => {
                    let [x, y, _] = v3(&op["v"]);
                    pipe.add_translation(x, y)
                }
                "ps" => {
                    let [x, y, _] = v3(&op["v"]);
                    pipe.add_scale(x, y)
                }
                "pr" => pipe.add_rotation(rad(&op["z"])),
                "pt-" => pipe.remove_translation(),
                "ps-" => pipe.remove_scale(),
                "pr-" => pipe.remove_rotation(),
                "pipe" => o.transform(&pipe.result()),
                x => panic!("HARNESS {}", x),
            }
            o.obs(fl(&op["den"]))
        })
    }
}
