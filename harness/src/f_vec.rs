//! C42: points and directions as vectors, lengths, angles, normals, text, signed numbers
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
thread_local! {
    static SCALE: Cell<f64> = Cell::new(1.0);
}
/// the power of two all positions of this case are multiplied with
fn sc() -> f64 {
    SCALE.with(|s| s.get())
}
fn sfls(v: &Value) -> Vec<f64> {
    fls(v).iter().map(|x| x * sc()).collect()
}
fn ints(v: &[f64]) -> Value {
    json!(v.iter().map(|x| num(*x / sc())).collect::<Vec<_>>())
}
fn milli(v: &[f64]) -> Value {
    json!(v.iter().map(|x| num((1000.0 * x).round())).collect::<Vec<_>>())
}
fn centi(x: f64) -> Value {
    // the floor of 100 x, forgiving the rounding of x itself
    let x = x / sc();
    num((100.0 * x + 1e-9 * x.abs()).floor())
}
/// a root of a whole number: its square to the next integer, and how far it is off, in 10^-15 of it
fn root(x: f64) -> Value {
    let q = (x / sc()) * (x / sc());
    let n = q.round();
    if n == 0.0 || x < 0.0 {
        return json!([if x == 0.0 { 0 } else { -1 }, 0]);
    }
    json!([num(n), num(((q - n) / n * 1e15).round().max(-1e9).min(1e9))])
}
/// how far the length of a unit vector is off, in 10^-15
fn unit1(v: &[f64]) -> Value {
    num(((v.iter().map(|x| x * x).sum::<f64>() - 1.0) * 1e15).round().max(-1e9).min(1e9))
}
fn opt<T>(x: Option<T>, f: impl Fn(T) -> Value) -> Value {
    match x {
        Some(x) => f(x),
        None => json!([]),
    }
}
fn all_eq<T: PartialEq>(v: Vec<T>) -> T {
    assert!(v.windows(2).all(|w| w[0] == w[1]), "HARNESS-DIFF");
    v.into_iter().next().unwrap()
}
fn ord(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

macro_rules! common {
    ($P:ident, $O:ident, $sqr:ident, $dist:ident, $center:ident, $dynt:ident, $coords:ident, $a:ident, $b:ident, $k:ident, $n:expr) => {{
        let (a, b) = (&$a, &$b);
        let k = $k;
        let add = all_eq(vec![a.clone() + b.clone(), a + b, a + b.clone(), {
            let mut x = a.clone();
            x.add(b);
            x
        }]);
        let sub = all_eq(vec![a.clone() - b.clone(), a - b, a - b.clone(), {
            let mut x = a.clone();
            x.subtract(b);
            x
        }]);
        let mul = all_eq(vec![a.clone() * k, a * k, {
            let mut x = a.clone();
            x.scale_pos(k);
            x
        }]);
        let neg = all_eq(vec![-a.clone(), -a]);
        let div = if k != 0.0 { let d = all_eq(vec![a.clone() / k, a / k]); d.$coords().iter().map(|x| num_s(*x / sc(), k)).collect() } else { vec![] };
        let da: &dyn $dynt = a;
        let sq = vec![$sqr(a, b), sqr_dist_nd(a, b).unwrap(), *HasDistanceTo::<$P>::sqr_distance(da, b), $sqr(b, a)].iter().map(|x| num(x / sc() / sc())).collect::<Vec<_>>();
        let dist = vec![root($dist(a, b)), root(dist_nd(a, b).unwrap()), root(*HasDistanceTo::<$P>::distance(da, b))];
        let mut buf = vec![1.0; 7];
        let two = |p: $P| ints(&p.$coords().iter().map(|x| 2.0 * x).collect::<Vec<_>>());
        let mid = vec![two($center(a, b)), two(a.center(b)), two(a.center_nd(b, &mut buf).unwrap())];
        let nd: Vec<Value> = (0..$n + 1).map(|i| opt(a.position_nd(i), |x| ints(&[x]))).collect();
        let setnd: Vec<Value> = (0..$n + 1)
            .map(|i| {
                let mut x = a.clone();
                let v = b.position_nd(i).unwrap_or(99.0);
                match x.set_position(i, v) {
                    Ok(()) => ints(&x.$coords()),
                    Err(_) => if x == *a { json!([]) } else { json!("changed") },
                }
            })
            .collect();
        let c = [a.$coords().to_vec(), vec![5.0, 6.0]].concat();
        let newnd: Vec<Value> = ($n - 1..$n + 2).map(|i| opt($P::new_nd(&c[..i]).ok(), |x| ints(&x.$coords()))).collect();
        let z = $P::zero();
        assert!(z == $P::zero_nd() && z == $P::default() && z.$coords().iter().all(|x| *x == 0.0), "HARNESS-DIFF");
        json!({"add": ints(&add.$coords()), "sub": ints(&sub.$coords()), "neg": ints(&neg.$coords()), "mul": ints(&mul.$coords()), "div": div,
               "dot": num(a.dot(b) / sc() / sc()), "sq": sq, "dist": dist, "abs": root(*a.abs()), "mid": mid, "nd": nd, "dims": $P::n_dimensions(),
               "setnd": setnd, "newnd": newnd, "ord": ord(Ord::cmp(a, b)), "eq": a == b, "hash": hash(a) == hash(b),
               "normed": opt(a.normalized().ok(), |x| milli(&x.$coords())), "len1": opt(a.normalized().ok(), |x| json!([unit1(&x.$coords())]))})
    }};
}

fn pair3(case: &Value) -> Value {
    let (x, y, k) = (sfls(&case["a"]), sfls(&case["b"]), fl(&case["k"]));
    let neg0 = |x: f64| if x == 0.0 && us(&case["nz"]) == 1 { -0.0 } else { x };
    let a = Point3D::new(neg0(x[0]), neg0(x[1]), neg0(x[2]));
    let b = Point3D::new(y[0], y[1], y[2]);
    let mut r = common!(Point3D, O3, sqr_dist_3d, dist_3d, center_3d, Is3D, xyz, a, b, k, 3);
    r["conn"] = ints(&conn(&a, &b).xyz());
    r["cross"] = ints(&cross(&a, &b).xyz().map(|x| x / sc()));
    r["parts"] = json!([ints(&a.xyz()), ints(&a.xy()), ints(&a.xz()), ints(&a.yz())]);
    let with = |f: &dyn Fn(&mut Point3D)| {
        let mut p = a.clone();
        f(&mut p);
        ints(&p.xyz())
    };
    r["sets"] = json!([with(&|p| p.set_xyz(b.x, b.y, b.z)), with(&|p| p.set_xy(b.x, b.y)), with(&|p| p.set_xz(b.x, b.z)), with(&|p| p.set_yz(b.y, b.z))]);
    let p2 = Point2D::new(1.0, 2.0);
    let mut f1 = a.clone();
    f1.from_nd(b.clone()).unwrap();
    let mut f3 = Point3D::default();
    IsBuildable3D::from(&mut f3, &b);
    assert!(f3 == b && Point3D::new_from(&b) == b, "HARNESS-DIFF");
    let mut f2 = a.clone();
    r["fromnd"] = json!([ints(&f1.xyz()), match f2.from_nd(p2.clone()) {
        Ok(()) => ints(&f2.xyz()),
        Err(_) => if f2 == a { json!([]) } else { json!("changed") },
    }]);
    r["otherdim"] = json!(sqr_dist_nd(&a, &p2).is_err() && dist_nd(&p2, &a).is_err() && a.center_nd(&p2, &mut vec![]).is_err());
    r["dimcmp"] = json!([0, 1, 2, 3, -1].iter().map(|d| opt(dimension_compare(&a, &b, *d).ok(), |o| json!([ord(o)]))).collect::<Vec<_>>());
    r["dimdist"] = json!([0, 1, 2, 3, -1].iter().map(|d| opt(dimension_dist(&a, &b, *d).ok(), |o| ints(&[o]))).collect::<Vec<_>>());
    r["flat"] = ints(&a.transform_to_2d::<Point2D>().xy());
    r["unit"] = opt(Norm3D::new(a.clone()).ok(), |n| {
        let nd: Vec<_> = (0..4).map(|i| n.position_nd(i)).collect();
        let bx = Box::new(a.clone());
        assert!(Norm3D::n_dimensions() == 3 && Box::<Point3D>::n_dimensions() == 3 && bx.xyz() == a.xyz() && (0..4).all(|i| bx.position_nd(i) == a.position_nd(i)), "HARNESS-DIFF");
        assert!([Is3D::x(&bx), Is3D::y(&bx), Is3D::z(&bx)] == a.xyz(), "HARNESS-DIFF");
        assert!(nd == vec![Some(n.x()), Some(n.y()), Some(n.z()), None] && hash(&n) == hash(&n.clone()), "HARNESS-DIFF");
        milli(&n.xyz())
    });
    if let Ok(n) = Norm3D::new(a.clone()) {
        r["len1"].as_array_mut().unwrap().push(unit1(&n.xyz()));
        r["nneg"] = milli(&all_eq(vec![-n.clone(), -&n]).xyz());
        r["ntimes"] = milli(&all_eq(vec![n.clone() * 2.0, &n * 2.0]).xyz());
    }
    r["angle"] = opt(a.rad_to(&b).ok(), |q| {
        json!([num((1000.0 * q.0.cos()).round()), if q.0 >= 0.0 && q.0 <= std::f64::consts::PI + 1e-12 { 1 } else { 0 }])
    });
    r["turn"] = a.rad_to(&b).map(|q| {
        let m = a.dot(&a) / sc() / sc() * (b.dot(&b) / sc() / sc());
        let x = q.0.cos() * q.0.cos() * m;
        num(((x - x.round()) / m * 1e14).round().max(-1e9).min(1e9))
    }).unwrap_or(json!(0));
    let axes = [Norm3D::norm_x(), Norm3D::norm_y(), Norm3D::norm_z(), Norm3D::norm_x_neg(), Norm3D::norm_y_neg(), Norm3D::norm_z_neg()];
    for (i, n) in axes.iter().enumerate() {
        let mut e = [0.0; 3];
        e[i % 3] = if i < 3 { 1.0 } else { -1.0 };
        assert!(n.xyz() == e, "HARNESS-DIFF");
    }
    r
}

fn pair2(case: &Value) -> Value {
    let (x, y, k) = (sfls(&case["a"]), sfls(&case["b"]), fl(&case["k"]));
    let neg0 = |x: f64| if x == 0.0 && us(&case["nz"]) == 1 { -0.0 } else { x };
    let a = Point2D::new(neg0(x[0]), neg0(x[1]));
    let b = Point2D::new(y[0], y[1]);
    let mut r = common!(Point2D, O2, sqr_dist_2d, dist_2d, center_2d, Is2D, xy, a, b, k, 2);
    r["conn"] = ints(&(&b - &a).xy());
    r["cross"] = ints(&[a.cross(&b) / sc()]);
    r["parts"] = json!([ints(&a.xy())]);
    let mut s = a.clone();
    s.set_xy(b.x, b.y);
    r["sets"] = json!([ints(&s.xy())]);
    let p3 = Point3D::new(1.0, 2.0, 3.0);
    let mut f1 = a.clone();
    f1.from_nd(b.clone()).unwrap();
    let mut f3 = Point2D::default();
    IsBuildable2D::from(&mut f3, &b);
    assert!(f3 == b && Point2D::new_from(&b) == b, "HARNESS-DIFF");
    let mut f2 = a.clone();
    r["fromnd"] = json!([ints(&f1.xy()), match f2.from_nd(p3.clone()) {
        Ok(()) => ints(&f2.xy()),
        Err(_) => if f2 == a { json!([]) } else { json!("changed") },
    }]);
    r["otherdim"] = json!(sqr_dist_nd(&a, &p3).is_err() && dist_nd(&p3, &a).is_err() && a.center_nd(&p3, &mut vec![]).is_err());
    r["lifted"] = ints(&a.transform_to_3d::<Point3D>(k * sc()).xyz());
    r["unit"] = opt(Norm2D::new(a.clone()).ok(), |n| {
        let nd: Vec<_> = (0..3).map(|i| n.position_nd(i)).collect();
        let bx = Box::new(a.clone());
        assert!(Norm2D::n_dimensions() == 2 && Box::<Point2D>::n_dimensions() == 2 && [Is2D::x(&bx), Is2D::y(&bx)] == a.xy() && (0..3).all(|i| bx.position_nd(i) == a.position_nd(i)), "HARNESS-DIFF");
        assert!(nd == vec![Some(n.x()), Some(n.y()), None] && hash(&n) == hash(&n.clone()), "HARNESS-DIFF");
        milli(&n.xy())
    });
    if let Ok(n) = Norm2D::new(a.clone()) {
        r["len1"].as_array_mut().unwrap().push(unit1(&n.xy()));
        r["nneg"] = milli(&all_eq(vec![-n.clone(), -&n]).xy());
        r["ntimes"] = milli(&all_eq(vec![n.clone() * 2.0, &n * 2.0]).xy());
    }
    let q = a.rad_to(&b).0;
    r["angle"] = milli(&[q.cos(), q.sin()]);
    let w = &b - &a;
    r["turn"] = num(((q.sin() * w.x - q.cos() * w.y) / w.x.abs().max(w.y.abs()).max(1e-300) * 1e14).round().max(-1e9).min(1e9));
    let axes = [Norm2D::norm_x(), Norm2D::norm_y(), Norm2D::norm_x_neg(), Norm2D::norm_y_neg()];
    for (i, n) in axes.iter().enumerate() {
        let mut e = [0.0; 2];
        e[i % 2] = if i < 2 { 1.0 } else { -1.0 };
        assert!(n.xy() == e, "HARNESS-DIFF");
    }
    r
}

fn path(case: &Value) -> Value {
    let p: Vec<Vec<f64>> = arr(&case["P"]).iter().map(sfls).collect();
    if us(&case["dim"]) == 3 {
        let p: Vec<_> = p.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect();
        let pc = PointCloud3D { data: p.clone() };
        let poly: Polygon3D<Point3D> = From::from(PointCloud3D { data: p.clone() });
        let seg = if p.len() == 2 { root(LineSegment3D::new(p[0].clone(), p[1].clone()).length()) } else { json!([]) };
        json!({"one": if p.len() == 2 { root(pc.length()) } else { json!([]) }, "open": centi(pc.length()), "closed": centi(poly.length()), "seg": seg})
    } else {
        let p: Vec<_> = p.iter().map(|p| Point2D::new(p[0], p[1])).collect();
        let pc = PointCloud2D { data: p.clone() };
        let poly: Polygon2D<Point2D> = From::from(PointCloud2D { data: p.clone() });
        let seg = if p.len() == 2 { root(LineSegment2D::new(p[0].clone(), p[1].clone()).length()) } else { json!([]) };
        json!({"one": if p.len() == 2 { root(pc.length()) } else { json!([]) }, "open": centi(pc.length()), "closed": centi(poly.length()), "seg": seg})
    }
}

fn normal(case: &Value) -> Value {
    let p: Vec<_> = arr(&case["P"]).iter().map(sfls).map(|p| Point3D::new(p[0], p[1], p[2])).collect();
    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
    for x in &p {
        m.add_vertex(x.clone());
    }
    m.add_vertex(Point3D::new(40.0, 41.0, 42.0));
    m.try_add_connection(VId(0), VId(1), VId(2)).unwrap();
    let at = normals_of_mesh(&m);
    json!({"len1": m.face_normal(FId(0)).iter().chain(at.iter()).chain([normal_of_face(&p[0], &p[1], &p[2])].iter()).map(|n| unit1(&n.xyz())).collect::<Vec<_>>(),
           "face": opt(m.face_normal(FId(0)).ok(), |n| milli(&n.xyz())), "of": milli(&normal_of_face(&p[0], &p[1], &p[2]).xyz()),
           "at": at.iter().take(3).map(|n| milli(&n.xyz())).collect::<Vec<_>>(),
           "beyond": m.face_normal(FId(1)).is_err() && at.len() == 4 && at[3] == Norm3D::norm_z()})
}

fn plane(case: &Value) -> Value {
    let p3 = |v: &Value| {
        let p = sfls(v);
        Point3D::new(p[0], p[1], p[2])
    };
    let (u, v) = (Norm3D::new(p3(&case["u"])).unwrap(), Norm3D::new(p3(&case["v"])).unwrap());
    let pl: Plane3D<Point3D, Norm3D> = Plane3D::new(p3(&case["o"]), u, v);
    let q: Point2D = project_point_on_plane(&pl, &p3(&case["p"]));
    let h = fl(&case["h"]);
    // a plane of no one's choice lies in x and y through the origin
    let df: Plane3D<Point3D, Norm3D> = Plane3D::default();
    assert!(df.origin() == Point3D::default() && df.u() == Norm3D::norm_x() && df.v() == Norm3D::norm_y(), "HARNESS-DIFF");
    json!({"p": q.xy().iter().map(|x| num_s(*x / sc(), h)).collect::<Vec<_>>(), "origin": ints(&pl.origin().xyz()), "u": milli(&pl.u().xyz()), "v": milli(&pl.v().xyz()), "len1": [unit1(&pl.u().xyz()), unit1(&pl.v().xyz())]})
}

struct F3(Norm3D);
impl IsDirectionField3D for F3 {
    fn direction_at<P: Is3D>(&self, _: &P) -> Norm3D {
        self.0.clone()
    }
}
struct F2(Norm2D);
impl IsDirectionField2D for F2 {
    fn direction_at<P: Is2D>(&self, _: &P) -> Norm2D {
        self.0.clone()
    }
}
fn field(case: &Value) -> Value {
    let z = fls(&case["z"]);
    let eps = Rad(z[1].atan2(z[0]) + if z[1] == 0.0 && z[0] > 0.0 { 1e-6 } else { 0.0 });
    let u = fls(&case["u"]);
    let a: Vec<bool> = if u.len() == 3 {
        let f = FilterDirectionField3D::new(F3(Norm3D::new(Point3D::new(u[0], u[1], u[2])).unwrap()), eps);
        arr(&case["V"]).iter().map(fls).map(|v| f.is_allowed(&(Point3D::new(1.0, 2.0, 3.0), Norm3D::new(Point3D::new(v[0], v[1], v[2])).unwrap()))).collect()
    } else {
        let f = FilterDirectionField2D::new(F2(Norm2D::new(Point2D::new(u[0], u[1])).unwrap()), eps);
        arr(&case["V"]).iter().map(fls).map(|v| f.is_allowed(&(Point2D::new(1.0, 2.0), Norm2D::new(Point2D::new(v[0], v[1])).unwrap()))).collect()
    };
    json!({ "a": a })
}

fn numbers(case: &Value) -> Value {
    let (a, b) = (fl(&case["a"]), fl(&case["b"]));
    let (pa, pb, na, nb) = (Positive::new(a), Positive::new(b), NonNegative::new(a), NonNegative::new(b));
    let mut r = json!({"pos": pa.is_some(), "non": na.is_some(), "pp": [], "np": [], "nn": [], "root": []});
    let q = |x: f64| num_s(x, b);
    if let (Some(x), Some(y)) = (pa, pb) {
        let ny = NonNegative::new(b).unwrap();
        let (mut s, mut m) = (x, x);
        s += y;
        m *= y;
        let mut s2 = x;
        s2 += ny;
        r["pp"] = json!([num(*(x + y)), num(*(x * y)), q(*(x / y)), num(*(x + ny)), num(*(x * ny)), q(*(x / ny)), num(*s), num(*m), q(*x / *y), num(*s2)]);
        let w: f64 = x.into();
        assert!(w == a && *x.as_ref() == a && x == Positive::new(a).unwrap() && hash(&x) == hash(&Positive::new(a).unwrap()) && *Positive::one() == 1.0 && Positive::default() == Positive::one() && *NonNegative::default() == 0.0 && *NonNegative::zero() == 0.0, "HARNESS-DIFF");
    }
    if let (Some(x), Some(y)) = (na, pb) {
        let (mut s, mut m, mut d) = (x, x, x);
        s += y;
        m *= y;
        d /= y;
        r["np"] = json!([num(*(x + y)), num(*(x * y)), q(*(x / y)), num(*s), num(*m), q(*d)]);
    }
    if let (Some(x), Some(y)) = (na, nb) {
        let (mut s, mut m, mut d) = (x, x, x);
        s += y;
        m *= y;
        if b == 0.0 {
            r["nn"] = json!([num(*(x + y)), num(*(x * y)), num(*s), num(*m)]);
        } else {
            d /= y;
            r["nn"] = json!([num(*(x + y)), num(*(x * y)), q(*(x / y)), num(*s), num(*m), q(*d)]);
        }
        let mut roots = vec![root(*x.sqrt())];
        if let Some(p) = pa {
            roots.push(root(*p.sqrt()));
            let n: NonNegative = p.into();
            roots.push(root(*n.sqrt()));
        }
        r["root"] = json!(roots);
        let w: f64 = x.into();
        assert!(w == a && *x.as_ref() == a && *NonNegative::zero() == 0.0 && *NonNegative::one() == 1.0, "HARNESS-DIFF");
    }
    r
}

fn text(case: &Value) -> Value {
    let t = st(&case["text"]);
    let p = if us(&case["dim"]) == 3 { Point3D::parse(t).ok().map(|p| p.xyz().to_vec()) } else { Point2D::parse(t).ok().map(|p| p.xy().to_vec()) };
    json!({"parsed": opt(p, |p| json!(p.iter().map(|x| num_s(*x, 1000.0)).collect::<Vec<_>>()))})
}
fn round(case: &Value) -> Value {
    let b: Vec<f64> = arr(&case["bits"]).iter().map(|s| f64::from_bits(st(s).parse().unwrap())).collect();
    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let a = Point3D::new(b[0], b[1], b[2]);
    let c = Point2D::new(b[0], b[1]);
    let shown = format!("{}", a);
    let inner = shown.trim_start_matches('(').trim_end_matches(')').replace(",", "");
    json!({"same": [Point3D::parse(&a.to_str()).map(|p| bits(&p.xyz()) == bits(&a.xyz())).unwrap_or(false),
                    Point2D::parse(&c.to_str()).map(|p| bits(&p.xy()) == bits(&c.xy())).unwrap_or(false),
                    Point3D::parse(&inner).map(|p| bits(&p.xyz()) == bits(&a.xyz())).unwrap_or(false)]})
}

pub fn vectors(case: &Value) -> Value {
    SCALE.with(|s| s.set(2f64.powi(case["scale"].as_i64().unwrap_or(0) as i32)));
    match st(&case["kind"]) {
        "pair" => if arr(&case["a"]).len() == 3 { pair3(case) } else { pair2(case) },
        "path" => path(case),
        "normal" => normal(case),
        "plane" => plane(case),
        "field" => field(case),
        "num" => numbers(case),
        "text" => text(case),
        "round" => round(case),
        "sort" => sort(case),
        "extrude" => extruded(case),
        "pack" => pack(case),
        x => panic!("HARNESS {}", x),
    }
}

fn sort(case: &Value) -> Value {
    let ps = arr(&case["P"]);
    if fls(&ps[0]).len() == 2 {
        let v: Vec<Point2D> = ps.iter().map(|p| Point2D::new(fl(&p[0]), fl(&p[1]))).collect();
        let o = |f: &dyn Fn(&mut Vec<Point2D>)| {
            let mut w = v.clone();
            f(&mut w);
            json!(w.iter().map(|p| ints(&[p.x, p.y])).collect::<Vec<_>>())
        };
        let m = |f: &dyn Fn(f64, f64) -> f64, g: &dyn Fn(&Point2D) -> f64| num(v.iter().map(g).fold(g(&v[0]), |a, b| f(b, a)));
        json!({"by": [o(&sort_vec_2d_x), o(&sort_vec_2d_y)],
               "low": [m(&min64, &|p| p.x), m(&min64, &|p| p.y)],
               "high": [m(&max64, &|p| p.x), m(&max_f64, &|p| p.y)]})
    } else {
        let v: Vec<Point3D> = ps.iter().map(|p| Point3D::new(fl(&p[0]), fl(&p[1]), fl(&p[2]))).collect();
        let o = |f: &dyn Fn(&mut Vec<Point3D>)| {
            let mut w = v.clone();
            f(&mut w);
            json!(w.iter().map(|p| ints(&[p.x, p.y, p.z])).collect::<Vec<_>>())
        };
        let m = |f: &dyn Fn(f64, f64) -> f64, g: &dyn Fn(&Point3D) -> f64| num(v.iter().map(g).fold(g(&v[0]), |a, b| f(a, b)));
        json!({"by": [o(&sort_vec_3d_x), o(&sort_vec_3d_y), o(&sort_vec_3d_z)],
               "low": [m(&min64, &|p| p.x), m(&min64, &|p| p.y), m(&min64, &|p| p.z)],
               "high": [m(&max64, &|p| p.x), m(&|a, b| max_f64_3(a, b, a), &|p| p.y), m(&max_f64, &|p| p.z)]})
    }
}
fn extruded(case: &Value) -> Value {
    let v: Vec<Point2D> = arr(&case["P"]).iter().map(|p| Point2D::new(fl(&p[0]), fl(&p[1]))).collect();
    let u = fls(&case["u"]);
    let (a, b) = extrude(&v, &Point3D::new(u[0], u[1], u[2]));
    let o = |pc: &PointCloud3D<Point3D>| json!(pc.data.iter().map(|p| ints(&[p.x, p.y, p.z])).collect::<Vec<_>>());
    json!({"a": o(&a), "b": o(&b)})
}
fn pack(case: &Value) -> Value {
    let v: Vec<Point3D> = arr(&case["P"]).iter().map(|p| Point3D::new(fl(&p[0]), fl(&p[1]), fl(&p[2]))).collect();
    let (u, ids) = pack_dupes_indexed(v.iter());
    json!({"unique": u.iter().map(|p| ints(&[p.x, p.y, p.z])).collect::<Vec<_>>(), "ids": ids})
}
