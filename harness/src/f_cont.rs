//! Point collections as sequences.
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::collections::VecDeque;

fn d3(p: &Point3D) -> Value {
    json!([num(p.x), num(p.y), num(p.z)])
}
fn d2(p: &Point2D) -> Value {
    json!([num(p.x), num(p.y), 0])
}
fn m3(v: &Value) -> Point3D {
    let v = fls(v);
    Point3D::new(v[0], v[1], v[2])
}
fn m2(v: &Value) -> Point2D {
    let v = fls(v);
    Point2D::new(v[0], v[1])
}
fn ok(r: Result<()>) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}
/// reads a collection back over every access path
fn back<P, C>(c: &C, r: &str, show: &dyn Fn(&P) -> Value) -> Value
where
    C: IsDataContainer<P>,
{
    let d: Vec<Value> = (0..c.len_d())
        .map(|i| c.get_d(i).map(|p| show(&p)).unwrap_or(json!([9, 9, 9])))
        .collect();
    json!({"r": r, "d": d, "n": c.len_d(), "oob": c.get_d(c.len_d()).is_some() || c.get_d(c.len_d() + 7).is_some() || FAR.iter().any(|x| c.get_d(*x).is_some())})
}
fn same<P, C>(c: &C, d: &[P]) -> bool
where
    P: PartialEq,
    C: IsDataContainer<P> + IsRandomAccessible<P>,
{
    c.len() == d.len() && c.len_d() == d.len() && (0..d.len()).all(|i| c[i] == d[i])
}

fn pc3(case: &Value) -> Value {
    let mut c = PointCloud3D::<Point3D>::new();
    history(case, |op| {
        let (p, i) = (&op["p"], &op["i"]);
        let list = || PointCloud3D {
            data: arr(&op["P"]).iter().map(m3).collect::<Vec<_>>(),
        };
        let mut r = match st(&op["op"]) {
            "push" => ok(Ok(c.push(m3(p)))),
            "pushd" => ok(Ok(c.push_d(m3(p)))),
            "ins" => {
                let far = FAR.iter().all(|x| c.insert(*x, m3(p)).is_err());
                ok(c.insert(us(i), m3(p)).and(if far { Ok(()) } else { Err(ErrorKind::ParseError) }))
            }
            "setd" => ok(Ok(c.set_d(us(i), m3(p)))),
            "idx" => ok(Ok(c[us(i)] = m3(p))),
            "reserve" => {
                c.reserve(3);
                c.reserve_d(3);
                c.reserve_vertices(us(i));
                "ok"
            }
            "append" => ok(Ok(c.append_ra(&list()))),
            "consume" => ok(Ok(c.consume(list()))),
            "combine" => {
                c = c.combine(&list());
                "ok"
            }
            "move" => {
                let v = m3(p);
                c.move_by(v.x, v.y, v.z);
                "ok"
            }
            "foreach" => {
                let v = m3(p);
                c.for_each_point(|x| x.move_by(v.x, v.y, v.z));
                "ok"
            }
            "sort" => ok(c.sort_dim(us(i))),
            "sortx" => ok(Ok(c.sort_x())),
            "sorty" => ok(Ok(c.sort_y())),
            "sortz" => ok(Ok(c.sort_z())),
            "roundtrip" => {
                let v: Vec<Point3D> = c.clone().into();
                c = From::from(v);
                "ok"
            }
            "clone" => {
                c = c.clone();
                "ok"
            }
            "text" => match PointCloud3D::parse(&c.to_str()) {
                Ok(x) => {
                    c = x;
                    "ok"
                }
                Err(_) => "err",
            },
            _ => panic!("HARNESS"),
        };
        if !same(&c, &c.data) {
            r = "access paths differ"
        }
        back(&c, r, &d3)
    })
}

fn pc2(case: &Value) -> Value {
    let mut c = PointCloud2D::<Point2D>::new();
    history(case, |op| {
        let (p, i) = (&op["p"], &op["i"]);
        let list = || PointCloud2D {
            data: arr(&op["P"]).iter().map(m2).collect::<Vec<_>>(),
        };
        let mut r = match st(&op["op"]) {
            "push" => ok(Ok(c.push(m2(p)))),
            "pushd" => ok(Ok(c.push_d(m2(p)))),
            "ins" => {
                let far = FAR.iter().all(|x| c.insert(*x, m2(p)).is_err());
                ok(c.insert(us(i), m2(p)).and(if far { Ok(()) } else { Err(ErrorKind::ParseError) }))
            }
            "setd" => ok(Ok(c.set_d(us(i), m2(p)))),
            "idx" => ok(Ok(c[us(i)] = m2(p))),
            "reserve" => {
                c.reserve(3);
                c.reserve_d(3);
                c.reserve_vertices(us(i));
                "ok"
            }
            "append" => ok(Ok(c.append_ra(&list()))),
            "consume" => ok(Ok(c.consume(list()))),
            "combine" => {
                c = c.combine(&list());
                "ok"
            }
            "move" => {
                let v = m2(p);
                c.move_by(v.x, v.y);
                "ok"
            }
            "foreach" => {
                let v = m2(p);
                c.for_each_point(|x| x.move_by(v.x, v.y));
                "ok"
            }
            "sort" => ok(c.sort_dim(us(i))),
            "sortx" => ok(Ok(c.sort_x())),
            "sorty" => ok(Ok(c.sort_y())),
            "roundtrip" => {
                let v: Vec<Point2D> = c.clone().into();
                c = From::from(v);
                "ok"
            }
            "clone" => {
                c = c.clone();
                "ok"
            }
            "text" => match PointCloud2D::parse(&c.to_str()) {
                Ok(x) => {
                    c = x;
                    "ok"
                }
                Err(_) => "err",
            },
            _ => panic!("HARNESS"),
        };
        if !same(&c, &c.data) {
            r = "access paths differ"
        }
        back(&c, r, &d2)
    })
}

fn f32s(case: &Value) -> Value {
    let mut c = PointCloud3Df32::<Point3D>::new();
    history(case, |op| {
        let (p, i) = (&op["p"], &op["i"]);
        let r = match st(&op["op"]) {
            "push" => ok(Ok(c.push(m3(p)))),
            "pushd" => ok(Ok(c.push_d(m3(p)))),
            "setd" => ok(Ok(c.set_d(us(i), m3(p)))),
            "reserve" => {
                c.reserve(us(i));
                c.reserve_d(3);
                "ok"
            }
            "move" => {
                let v = m3(p);
                c.move_by(v.x, v.y, v.z);
                "ok"
            }
            "roundtrip" => {
                let v: Vec<f32> = c.clone().into();
                c = From::from(v);
                "ok"
            }
            "clone" => {
                c = c.clone();
                "ok"
            }
            _ => panic!("HARNESS"),
        };
        back(&c, r, &d3)
    })
}

macro_rules! seq {
    ($name:ident, $t:ty) => {
        fn $name(case: &Value) -> Value {
            let mut c: $t = Default::default();
            history(case, |op| {
                let (p, i) = (&op["p"], &op["i"]);
                let mut r = match st(&op["op"]) {
                    "push" => ok(Ok(IsPushable::push(&mut c, m3(p)))),
                    "pushd" => ok(Ok(c.push_d(m3(p)))),
                    "ins" => {
                let far = FAR.iter().all(|x| IsRandomInsertible::insert(&mut c, *x, m3(p)).is_err());
                ok(IsRandomInsertible::insert(&mut c, us(i), m3(p)).and(if far { Ok(()) } else { Err(ErrorKind::ParseError) }))
            }
                    "setd" => ok(Ok(c.set_d(us(i), m3(p)))),
                    "idx" => ok(Ok(c[us(i)] = m3(p))),
                    "reserve" => {
                        IsPushable::reserve(&mut c, us(i));
                        c.reserve_d(3);
                        "ok"
                    }
                    "move" => {
                        let v = m3(p);
                        IsMovable3D::move_by(&mut c, v.x, v.y, v.z);
                        "ok"
                    }
                    "clone" => {
                        c = c.clone();
                        "ok"
                    }
                    _ => panic!("HARNESS"),
                };
                let d: Vec<Point3D> = c.iter().cloned().collect();
                if !same(&c, &d) {
                    r = "access paths differ"
                }
                back(&c, r, &d3)
            })
        }
    };
}
seq!(vecs, Vec<Point3D>);
seq!(deques, VecDeque<Point3D>);

pub fn cont(case: &Value) -> Value {
    match st(&case["kind"]) {
        "pc2" => pc2(case),
        "pc3" => pc3(case),
        "f32" => f32s(case),
        "vec" => vecs(case),
        "deque" => deques(case),
        k => panic!("HARNESS kind {}", k),
    }
}
