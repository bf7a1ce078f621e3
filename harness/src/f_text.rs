//! C44: printed forms, texts and error messages
use crate::util::*;
use rust_3d::io::*;
use rust_3d::*;
use serde_json::{json, Value};

fn d<T: std::fmt::Display>(x: &T) -> String {
    format!("{}", x)
}

fn shape(case: &Value) -> Value {
    let p: Vec<Vec<f64>> = arr(&case["P"]).iter().map(|p| fls(p).iter().map(|x| x / 2.0).collect()).collect();
    let (mut c2, mut c3) = (PointCloud2D::<Point2D>::new(), PointCloud3D::<Point3D>::new());
    for q in &p {
        c2.push(Point2D::new(q[0], q[1]));
        c3.push(Point3D::new(q[0], q[1], q[2]));
    }
    let (p2, p3): (Polygon2D<Point2D>, Polygon3D<Point3D>) = (c2.clone().into(), c3.clone().into());
    let again2 = match PointCloud2D::<Point2D>::parse(&c2.to_str()) {
        Ok(c) => !p.is_empty() && c.data == c2.data,
        Err(_) => p.is_empty(),
    };
    let again3 = match PointCloud3D::<Point3D>::parse(&c3.to_str()) {
        Ok(c) => !p.is_empty() && c.data == c3.data,
        Err(_) => p.is_empty(),
    };
    let mut r = json!({
        "two": {"pts": c2.data.iter().map(d).collect::<Vec<_>>(), "strs": c2.data.iter().map(|p| p.to_str()).collect::<Vec<_>>(), "cloud": d(&c2), "poly": d(&p2), "text": c2.to_str(), "again": again2},
        "three": {"pts": c3.data.iter().map(d).collect::<Vec<_>>(), "strs": c3.data.iter().map(|p| p.to_str()).collect::<Vec<_>>(), "cloud": d(&c3), "poly": d(&p3), "text": c3.to_str(), "again": again3},
    });
    if !p.is_empty() {
        let (ax, s) = (us(&case["axis"]) - 1, fl(&case["sign"]));
        let (mut v2, mut v3) = ([0.0; 2], [0.0; 3]);
        v2[ax % 2] = s;
        v3[ax] = s;
        let (n2, n3) = (Norm2D::new(Point2D::new(v2[0], v2[1])).expect("HARNESS"), Norm3D::new(Point3D::new(v3[0], v3[1], v3[2])).expect("HARNESS"));
        let (a2, a3) = (c2.data[0].clone(), c3.data[0].clone());
        let (l2, l3) = (Line2D::new(a2.clone(), n2), Line3D::new(a3.clone(), n3));
        r["line2"] = json!(d(&l2));
        r["line3"] = json!(d(&l3));
        r["ray2"] = json!(d(&Ray2D::new(l2)));
        r["ray3"] = json!(d(&Ray3D::new(l3)));
        r["seg2"] = json!(d(&LineSegment2D::new(a2, c2.data[p.len() - 1].clone())));
        r["seg3"] = json!(d(&LineSegment3D::new(a3, c3.data[p.len() - 1].clone())));
    }
    r
}

fn nums(case: &Value) -> Value {
    let i = uss(&case["ids"]);
    let (a, b) = (fl(&case["a"]) / 2.0, fl(&case["b"]) / 2.0);
    macro_rules! id {
        ($t:ident) => {{
            let mut x = $t(i[0]);
            let s = d(&x);
            assert!(*x.as_ref() == i[0], "HARNESS-DIFF");
            *x.as_mut() = i[1];
            let n: usize = x.into();
            (s, n)
        }};
    }
    macro_rules! angle {
        ($t:ident) => {{
            let mut x = $t(a);
            let s = d(&x);
            assert!(*x.as_ref() == a, "HARNESS-DIFF");
            *x.as_mut() = b;
            let n: f64 = x.into();
            (s, num(2.0 * n))
        }};
    }
    let (v, f, e, s) = (id!(VId), id!(FId), id!(EId), id!(SId));
    let (g, w) = (angle!(Deg), angle!(Rad));
    json!({
        "face": d(&Face3::new(VId(i[0]), VId(i[1]), VId(i[2]))),
        "ids": [v.0, f.0, e.0, s.0], "moved": [v.1, f.1, e.1, s.1],
        "angles": [g.0, w.0], "turned": [g.1, w.1],
        "pos": Positive::new(a).map(|x| d(&x)).unwrap_or("-".to_string()),
        "non": NonNegative::new(a).map(|x| d(&x)).unwrap_or("-".to_string()),
    })
}

fn info(case: &Value) -> Value {
    let (e, i, w) = (st(&case["e"]).to_string(), us(&case["i"]), st(&case["w"]).to_string());
    json!({
        "none": d(&WithLineInfo::None(e.clone())),
        "index": d(&WithLineInfo::Index(i, e.clone())),
        "line": d(&WithLineInfo::Line(i, w, e)),
    })
}

fn errs() -> Value {
    macro_rules! g {
        ($t:ident, $($v:ident),*) => { Value::Array(vec![$({ let x = $t::$v; Value::Array(vec![json!(d(&x)), json!(format!("{:?}", x))]) }),*]) };
    }
    macro_rules! w {
        ($t:ident, $($v:ident),*) => { Value::Array(vec![$({ let x = $t::$v; Value::Array(vec![json!(d(&x)), json!(format!("{:?}", x)), json!(format!("{:?}", ErrorKind::from($t::$v))), json!(format!("{:?}", ErrorKind::$t($t::$v)))]) }),*]) };
    }
    macro_rules! k {
        ($t:ident, $($v:ident),*) => { Value::Array(vec![$({ let x = $t::$v; Value::Array(vec![json!(format!("{:?}", x))]) }),*]) };
    }
    macro_rules! p {
        ($t:ident, $($v:ident),*) => { Value::Array(vec![$({ let x = $t::$v; Value::Array(vec![json!(d(&x)), json!(format!("{:?}", x)), json!(format!("{:?}", ErrorKind::$t($t::$v)))]) }),*]) };
    }
    json!({"groups": [
        w!(GcodeError, AccessFile, Command),
        w!(ObjError, AccessFile, InvalidMeshIndices, Face, Vertex),
        w!(OffError, AccessFile, InvalidMeshIndices, VertexCount, FaceCount, Vertex, Face, FaceVertexCount),
        p!(PslError, AccessFile),
        g!(PtsError, AccessFile, VertexCount, Vertex),
        p!(PtxError, LoadFileEndReached, AccessFile, Columns, Rows, Matrix, Point),
        w!(StlError, LoadFileEndReached, AccessFile, BinaryData, InvalidFaceCount, Facet, EndFacet, Vertex, Loop, EndLoop),
        w!(XyError, EstimateDelimiter, AccessFile, Vertex),
        w!(XyzError, EstimateDelimiter, AccessFile, Vertex),
        g!(LasError, AccessFile, BinaryData, UnknownPointFormat, UnsupportedVersion, Header),
        w!(PlyError, LoadStartNotFound, LoadFormatNotFound, LoadVertexIndexDefinitionNotFound, LoadHeaderInvalid, LoadVertexCountIncorrect, LoadFaceCountIncorrect, AccessFile, ColorArrayIncorrectLength, VertexElement, FaceElement, InvalidMeshIndices, InvalidProperty, InvalidVertex, PropertyLineLocation, FaceStructure, InvalidVertexDimensionDefinition),
        k!(ErrorKind, MinMaxSwapped, MinMaxEqual, TooFewPoints, BoundingBoxMissing, NormalizeVecWithoutLength, IOError, ParseError, IndexOutOfBounds, IncorrectFaceID, IncorrectVertexID, FaceIDsNotUnique, IncorrectEdgeID, IncorrectVoxelID, IncorrectUnitID, IncorrectSegmentID, IncorrectDimension, DimensionsDontMatch, NumberConversionError, NumberInWrongRange, ComparisionFailed, ClusterTooBig, CantCalculateAngleIfZeroLength, TriFace3DNotSpanningVolume),
    ]})
}

fn cloud(case: &Value) -> Value {
    let t = st(&case["text"]);
    let m = |x: f64| num_s(x, 1000.0);
    let r: Option<Vec<Vec<f64>>> = if us(&case["dim"]) == 3 {
        PointCloud3D::<Point3D>::parse(t).ok().map(|c| c.data.iter().map(|p| p.xyz().to_vec()).collect())
    } else {
        PointCloud2D::<Point2D>::parse(t).ok().map(|c| c.data.iter().map(|p| p.xy().to_vec()).collect())
    };
    json!({"ok": r.is_some(), "p": r.unwrap_or_default().iter().map(|p| p.iter().map(|x| m(*x)).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

pub fn text(case: &Value) -> Value {
    match st(&case["kind"]) {
        "shape" => shape(case),
        "nums" => nums(case),
        "info" => info(case),
        "errs" => errs(),
        "cloud" => cloud(case),
        k => panic!("HARNESS kind {}", k),
    }
}
