//! Index containers, meshes, half edges.
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::collections::VecDeque;

//------------------------------------------------------------------ index containers

trait IcExtra: IsIndexContainer {
    fn width(&mut self) -> Value {
        json!("-")
    }
    fn upgrade(&mut self) -> bool {
        false
    }
    fn mutset(&mut self, _i: usize, _x: usize) -> bool {
        false
    }
    fn build(from: &str, init: &[usize]) -> Self;
}
fn by_push<IC: IsIndexContainer>(mut ic: IC, init: &[usize]) -> IC {
    for x in init {
        ic.push(*x)
    }
    ic
}
fn build_generic<IC: IsIndexContainer>(from: &str, init: &[usize]) -> IC {
    match from {
        "cap" => by_push(IC::with_capacity(7), init),
        "sup" => by_push(
            IC::with_support_for(init.iter().max().cloned().unwrap_or(0)),
            init,
        ),
        "capsup" => by_push(
            IC::with_capacity_and_support_for(3, init.iter().max().cloned().unwrap_or(0)),
            init,
        ),
        _ => by_push(IC::default(), init),
    }
}
impl IcExtra for Vec<usize> {
    fn build(from: &str, init: &[usize]) -> Self {
        build_generic(from, init)
    }
}
impl IcExtra for U32IndexVec {
    fn build(from: &str, init: &[usize]) -> Self {
        build_generic(from, init)
    }
}
impl IcExtra for DynamicPrecisionIndexVec {
    fn width(&mut self) -> Value {
        let mut w = Vec::new();
        if self.get_u8().is_some() {
            w.push("u8")
        }
        if self.get_u8_mut().is_some() {
            w.push("u8")
        }
        if self.get_u16().is_some() {
            w.push("u16")
        }
        if self.get_u16_mut().is_some() {
            w.push("u16")
        }
        if self.get_u32().is_some() {
            w.push("u32")
        }
        if self.get_u32_mut().is_some() {
            w.push("u32")
        }
        if self.get_usize().is_some() {
            w.push("usize")
        }
        if self.get_usize_mut().is_some() {
            w.push("usize")
        }
        if w.len() == 2 && w[0] == w[1] {
            json!(w[0])
        } else {
            json!(w.join("+"))
        }
    }
    fn upgrade(&mut self) -> bool {
        let a = self.get_usize_upgraded().clone();
        let b = self.get_usize_upgraded_mut().clone();
        a == b
    }
    fn mutset(&mut self, i: usize, x: usize) -> bool {
        if let Some(v) = self.get_u8_mut() {
            if x > 0xff {
                return false;
            }
            v[i] = x as u8;
            return true;
        }
        if let Some(v) = self.get_u16_mut() {
            if x > 0xffff {
                return false;
            }
            v[i] = x as u16;
            return true;
        }
        if let Some(v) = self.get_u32_mut() {
            if x > 0xffff_ffff {
                return false;
            }
            v[i] = x as u32;
            return true;
        }
        if let Some(v) = self.get_usize_mut() {
            v[i] = x;
            return true;
        }
        false
    }
    fn build(from: &str, init: &[usize]) -> Self {
        match from {
            "u8" => Self::from(init.iter().map(|x| *x as u8).collect::<Vec<_>>()),
            "u16" => Self::from(init.iter().map(|x| *x as u16).collect::<Vec<_>>()),
            "u32" => Self::from(init.iter().map(|x| *x as u32).collect::<Vec<_>>()),
            "usize" => Self::from(init.to_vec()),
            "u8r" => Self::from(&init.iter().map(|x| *x as u8).collect::<Vec<_>>()),
            "u16r" => Self::from(&init.iter().map(|x| *x as u16).collect::<Vec<_>>()),
            "u32r" => Self::from(&init.iter().map(|x| *x as u32).collect::<Vec<_>>()),
            "usizer" => Self::from(&init.to_vec()),
            _ => build_generic(from, init),
        }
    }
}

fn ivec_run<IC: IcExtra>(case: &Value) -> Value {
    let init = uss(&case["init"]);
    let mut ic = IC::build(st(&case["from"]), &init);
    history(case, |op| {
        let r = match st(&op["op"]) {
            "start" => true,
            "push" => {
                ic.push(us(&op["v"]));
                true
            }
            "set" => {
                ic.set(us(&op["i"]), us(&op["v"]));
                true
            }
            "ensure" => {
                ic.ensure_supported(us(&op["v"]));
                true
            }
            "reserve" => {
                ic.reserve(us(&op["n"]));
                true
            }
            "upgrade" => ic.upgrade(),
            "mut" => ic.mutset(us(&op["i"]), us(&op["v"])),
            "clone" => {
                let mut old = ic.clone();
                // writes to the original must not show in the clone
                if old.len() > 0 {
                    old.set(0, 1);
                }
                true
            }
            _ => panic!("HARNESS op"),
        };
        let by_iter: Vec<String> = ic.iter().map(|x| x.to_string()).collect();
        let by_get: Vec<String> = (0..ic.len()).map(|i| ic.get(i).to_string()).collect();
        json!({"r": r, "len": ic.len(), "vals": by_get, "it": by_iter, "w": ic.width()})
    })
}

pub fn ivec(case: &Value) -> Value {
    match st(&case["kind"]) {
        "dyn" => ivec_run::<DynamicPrecisionIndexVec>(case),
        "u32" => ivec_run::<U32IndexVec>(case),
        _ => ivec_run::<Vec<usize>>(case),
    }
}

//------------------------------------------------------------------ meshes

fn pt(k: i64) -> Point3D {
    Point3D::new(k as f64, (1000 + k) as f64, (-500 - k) as f64)
}
fn unpt(p: &Point3D) -> Value {
    let k = p.x;
    if p.y == 1000.0 + k && p.z == -500.0 - k {
        num(k)
    } else {
        json!(format!("{},{},{}", p.x, p.y, p.z))
    }
}
fn i(v: &Value) -> i64 {
    v.as_i64().expect("i64")
}

fn mesh_run<ID, IC>(case: &Value) -> Value
where
    ID: IsDataContainer<Point3D> + Default + IsMovable3D,
    IC: IsIndexContainer,
{
    let mut id = ID::default();
    for k in arr(&case["V"]) {
        id.push_d(pt(i(k)));
    }
    let mut ic = IC::default();
    for f in arr(&case["F"]) {
        for v in uss(f) {
            ic.push(v)
        }
    }
    let mut m = Some(Mesh3D::<Point3D, ID, IC>::from((id, ic)));
    history(case, |op| {
        let r = {
            let mm = m.as_mut().unwrap();
            match st(&op["op"]) {
                "start" => json!("ok"),
                "addv" => json!(mm.add_vertex(pt(i(&op["k"]))).0),
                "addvs" => {
                    let mut last = 0;
                    for k in 0..i(&op["n"]) {
                        last = mm.add_vertex(pt(i(&op["k"]) + k)).0;
                    }
                    json!(last)
                }
                "addf" => {
                    let k = arr(&op["ks"]);
                    json!(mm.add_face(pt(i(&k[0])), pt(i(&k[1])), pt(i(&k[2]))).0)
                }
                "con" => {
                    let v = uss(&op["vs"]);
                    match mm.try_add_connection(VId(v[0]), VId(v[1]), VId(v[2])) {
                        Ok(id) => json!(id.0),
                        Err(e) => json!(err(&e)),
                    }
                }
                "chg" => match mm.change_vertex(VId(us(&op["v"])), pt(i(&op["k"]))) {
                    Ok(()) => json!("ok"),
                    Err(e) => json!(err(&e)),
                },
                "res" => {
                    mm.reserve_faces(us(&op["n"]));
                    mm.reserve_vertices(us(&op["n"]));
                    json!("ok")
                }
                "mov" => {
                    let k = i(&op["k"]) as f64;
                    mm.move_by(k, k, -k);
                    json!("ok")
                }
                "rebuild" => {
                    let (id, ic): (ID, IC) = m.take().unwrap().into();
                    m = Some(Mesh3D::from((id, ic)));
                    json!("ok")
                }
                "search" => {
                    let mut s = SearchableMesh::<Mesh3D<Point3D, ID, IC>, Point3D, IC>::new(m.take().unwrap());
                    let at = s.add_vertex(pt(i(&op["k"]))).0;
                    let chg = match s.change_vertex(VId(us(&op["v"])), pt(i(&op["kk"]))) {
                        Ok(()) => "ok",
                        Err(e) => err(&e),
                    };
                    s.reserve_vertices(3);
                    let same = {
                        let all = (0..s.num_faces() + 2).all(|f| {
                            let f = FId(f);
                            s.face_vertex_ids(f) == s.mesh().face_vertex_ids(f) && s.face_vertices(f) == s.mesh().face_vertices(f)
                        }) && (0..s.num_vertices() + 2).all(|v| s.vertex(VId(v)) == s.mesh().vertex(VId(v)));
                        let r: &Mesh3D<Point3D, ID, IC> = s.as_ref();
                        all && std::ptr::eq(r, s.mesh()) && r.num_faces() == s.num_faces() && r.num_vertices() == s.num_vertices()
                    };
                    let (mesh, _): (Mesh3D<Point3D, ID, IC>, HalfEdge<IC>) = s.into();
                    m = Some(mesh);
                    if same {
                        json!([at.to_string(), chg])
                    } else {
                        json!("searchable mesh differs")
                    }
                }
                _ => panic!("HARNESS op"),
            }
        };
        let refused = {
            let m = m.as_mut().unwrap();
            FAR.iter().all(|x| {
                let v = |k: usize| VId(if k == x % 3 { *x } else { k });
                m.change_vertex(VId(*x), pt(1)).is_err() && m.try_add_connection(v(0), v(1), v(2)).is_err()
            })
        };
        let m = m.as_ref().unwrap();
        let (nf, nv) = (m.num_faces(), m.num_vertices());
        let fs: Vec<Value> = (0..nf)
            .map(|f| match m.face_vertex_ids(FId(f)) {
                Some(x) => {
                    let by = (0..3).map(|k| x.vid(k).map(|v| v.0)).collect::<Vec<_>>();
                    if by == vec![Some(x.a.0), Some(x.b.0), Some(x.c.0)] && x.vid(3).is_none() {
                        json!([x.a.0, x.b.0, x.c.0])
                    } else {
                        json!("vid() differs")
                    }
                }
                None => json!("None"),
            })
            .collect();
        let fv: Vec<Value> = (0..nf)
            .map(|f| match m.face_vertices(FId(f)) {
                Some([a, b, c]) => json!([unpt(&a), unpt(&b), unpt(&c)]),
                None => json!("None"),
            })
            .collect();
        let vs: Vec<Value> = (0..nv)
            .map(|v| m.vertex(VId(v)).map(|p| unpt(&p)).unwrap_or(json!("None")))
            .collect();
        let oob = m.face_vertex_ids(FId(nf)).is_none()
            && m.face_vertex_ids(FId(nf + 1)).is_none()
            && m.face_vertices(FId(nf)).is_none()
            && m.vertex(VId(nv)).is_none()
            && m.vertex(VId(nv + 7)).is_none()
            && FAR.iter().all(|x| m.face_vertex_ids(FId(*x)).is_none() && m.face_vertices(FId(*x)).is_none() && m.vertex(VId(*x)).is_none());
        json!({"r": r, "nf": nf, "nv": nv, "F": fs, "FV": fv, "V": vs, "oob": oob && refused})
    })
}

pub fn err(e: &ErrorKind) -> &'static str {
    use ErrorKind::*;
    match e {
        MinMaxSwapped => "MinMaxSwapped",
        MinMaxEqual => "MinMaxEqual",
        TooFewPoints => "TooFewPoints",
        BoundingBoxMissing => "BoundingBoxMissing",
        NormalizeVecWithoutLength => "NormalizeVecWithoutLength",
        IOError => "IOError",
        ParseError => "ParseError",
        IndexOutOfBounds => "IndexOutOfBounds",
        IncorrectFaceID => "IncorrectFaceID",
        IncorrectVertexID => "IncorrectVertexID",
        FaceIDsNotUnique => "FaceIDsNotUnique",
        IncorrectEdgeID => "IncorrectEdgeID",
        IncorrectSegmentID => "IncorrectSegmentID",
        IncorrectDimension => "IncorrectDimension",
        DimensionsDontMatch => "DimensionsDontMatch",
        NumberConversionError => "NumberConversionError",
        NumberInWrongRange => "NumberInWrongRange",
        ComparisionFailed => "ComparisionFailed",
        ClusterTooBig => "ClusterTooBig",
        TriFace3DNotSpanningVolume => "TriFace3DNotSpanningVolume",
        PlyError(_) => "PlyError",
        StlError(_) => "StlError",
        PtxError(_) => "PtxError",
        XyError(_) => "XyError",
        XyzError(_) => "XyzError",
        ObjError(_) => "ObjError",
        OffError(_) => "OffError",
        PslError(_) => "PslError",
        GcodeError(_) => "GcodeError",
        _ => "Other",
    }
}

pub fn mesh(case: &Value) -> Value {
    type P = Point3D;
    match (st(&case["data"]), st(&case["ic"])) {
        ("vec", "usize") => mesh_run::<Vec<P>, Vec<usize>>(case),
        ("vec", "dyn") => mesh_run::<Vec<P>, DynamicPrecisionIndexVec>(case),
        ("deque", "u32") => mesh_run::<VecDeque<P>, U32IndexVec>(case),
        ("f32", "dyn") => mesh_run::<PointCloud3Df32<P>, DynamicPrecisionIndexVec>(case),
        ("f32", "usize") => mesh_run::<PointCloud3Df32<P>, Vec<usize>>(case),
        ("pc", "dyn") => mesh_run::<PointCloud3D<P>, DynamicPrecisionIndexVec>(case),
        ("pc", "u32") => mesh_run::<PointCloud3D<P>, U32IndexVec>(case),
        _ => mesh_run::<PointCloud3D<P>, Vec<usize>>(case),
    }
}

//------------------------------------------------------------------ half edges

fn raw_mesh<IC: IsIndexContainer>(case: &Value) -> Mesh3D<Point3D, PointCloud3D<Point3D>, IC> {
    let mut pc = PointCloud3D::new();
    for k in 0..us(&case["nv"]) {
        pc.push(pt(k as i64));
    }
    let mut ic = IC::default();
    for f in arr(&case["F"]) {
        for v in uss(f) {
            ic.ensure_supported(v);
            ic.push(v)
        }
    }
    Mesh3D::from((pc, ic))
}

fn opt<T: Into<usize>>(x: Option<T>) -> Value {
    match x {
        Some(x) => {
            let u: usize = x.into();
            json!(u)
        }
        None => json!(-1),
    }
}

/// list query with "append" semantics: the result vector is pre-filled with a sentinel that has to stay
fn appended<T: Copy + Into<usize>>(sent: T, r: Result<()>, res: Vec<T>) -> Value {
    match r {
        Err(e) => json!(err(&e)),
        Ok(()) => {
            let s: usize = sent.into();
            let v: Vec<usize> = res.iter().map(|x| (*x).into()).collect();
            if v.first() != Some(&s) {
                return json!(["prefix lost", v]);
            }
            let mut v = v[1..].to_vec();
            v.sort();
            json!(v)
        }
    }
}

/// a searchable mesh of a user, everything the trait offers by default left as it is
struct Own<'a, IC: IsIndexContainer>(&'a SearchableMesh<Mesh3D<Point3D, PointCloud3D<Point3D>, IC>, Point3D, IC>);
impl<'a, IC: IsIndexContainer> IsMesh<Point3D, Face3> for Own<'a, IC> {
    fn num_faces(&self) -> usize {
        self.0.num_faces()
    }
    fn num_vertices(&self) -> usize {
        self.0.num_vertices()
    }
    fn face_vertex_ids(&self, f: FId) -> Option<Face3> {
        self.0.face_vertex_ids(f)
    }
    fn face_vertices(&self, f: FId) -> Option<[Point3D; 3]> {
        self.0.face_vertices(f)
    }
    fn vertex(&self, v: VId) -> Option<Point3D> {
        self.0.vertex(v)
    }
}
impl<'a, IC: IsIndexContainer> IsSearchableMesh<Point3D, Face3> for Own<'a, IC> {
    fn edges_of_face(&self, f: FId) -> Option<(EId, EId, EId)> {
        self.0.edges_of_face(f)
    }
    fn edges_originating_from_vertex(&self, v: VId, r: &mut Vec<EId>) -> Result<()> {
        self.0.edges_originating_from_vertex(v, r)
    }
    fn edges_ending_at_vertex(&self, v: VId, c: &mut Vec<EId>, r: &mut Vec<EId>) -> Result<()> {
        self.0.edges_ending_at_vertex(v, c, r)
    }
    fn edges_of_vertex(&self, v: VId, c: &mut Vec<EId>, r: &mut Vec<EId>) -> Result<()> {
        self.0.edges_of_vertex(v, c, r)
    }
    fn edge_tail(&self, e: EId) -> Option<VId> {
        self.0.edge_tail(e)
    }
    fn edge_head(&self, e: EId) -> Option<VId> {
        self.0.edge_head(e)
    }
    fn edge_next(&self, e: EId) -> Option<EId> {
        self.0.edge_next(e)
    }
    fn edge_prev(&self, e: EId) -> Option<EId> {
        self.0.edge_prev(e)
    }
    fn edge_twin(&self, e: EId) -> Option<EId> {
        self.0.edge_twin(e)
    }
    fn edge_face(&self, e: EId) -> Option<FId> {
        self.0.edge_face(e)
    }
}

fn he_run<IC: IsIndexContainer>(case: &Value) -> Value {
    let m = raw_mesh::<IC>(case);
    let (nf, nv) = (m.num_faces(), m.num_vertices());
    let ne = 3 * nf;
    let mut he = HalfEdge::<IC>::new(&m);
    let mut sm = SearchableMesh::<_, _, IC>::new(m);
    if case["parts"] == json!(true) {
        // taken apart and put together again
        let (t, w): (IC, Vec<Option<EId>>) = he.clone().into();
        let o: Vec<IC> = he.clone().into();
        let (t2, w2, o2): (IC, Vec<Option<EId>>, Vec<IC>) = he.into();
        let nums = |x: &IC| x.iter().collect::<Vec<_>>();
        let all = |x: &Vec<IC>| x.iter().map(nums).collect::<Vec<_>>();
        assert!(nums(&t) == nums(&t2) && w == w2 && all(&o) == all(&o2), "HARNESS-DIFF");
        he = HalfEdge::from((t, w2, o));
        let (m, h) = sm.into();
        let h2: (IC, Vec<Option<EId>>, Vec<IC>) = h.into();
        sm = SearchableMesh::from((m, HalfEdge::from(h2)));
    }
    // what the result lists hold already
    #[allow(non_snake_case)]
    let S = case["sent"].as_u64().unwrap_or(999_999) as usize;
    let junk = || vec![EId(S), EId(0)];
    // per edge; index ne is out of bounds
    let edges: Vec<Value> = (0..=ne)
        .map(|e| {
            let e = EId(e);
            json!({
                "tail": opt(he.tail(e)), "next": opt(he.next(e)), "prev": opt(he.prev(e)),
                "twin": opt(he.twin(e)), "face": opt(he.face(e)),
                "stail": opt(sm.edge_tail(e)), "shead": opt(sm.edge_head(e)),
                "snext": opt(sm.edge_next(e)), "sprev": opt(sm.edge_prev(e)),
                "stwin": opt(sm.edge_twin(e)), "sface": opt(sm.edge_face(e)),
                "ens": he.ensure_edge_id(e).is_ok(),
            })
        })
        .collect();
    // per vertex; index nv is out of bounds
    let asked: Vec<usize> = match case["vq"].as_array() {
        Some(_) => uss(&case["vq"]),
        None => (0..=nv).collect(),
    };
    let verts: Vec<Value> = asked
        .into_iter()
        .map(|v| {
            let v = VId(v);
            let (mut a, mut b2, mut c, mut f) = (
                vec![EId(S)],
                vec![EId(S)],
                vec![EId(S)],
                vec![FId(S)],
            );
            let (mut sa, mut sb, mut sc, mut sf) = (
                vec![EId(S)],
                vec![EId(S)],
                vec![EId(S)],
                vec![FId(S)],
            );
            let ra = he.edges_originating(v, &mut a);
            let rb = he.edges_ending(v, &mut junk(), &mut b2);
            let rc = he.edges_all(v, &mut junk(), &mut c);
            let rf = he.faces(v, &mut junk(), &mut f);
            let rsa = sm.edges_originating_from_vertex(v, &mut sa);
            let rsb = sm.edges_ending_at_vertex(v, &mut junk(), &mut sb);
            let rsc = sm.edges_of_vertex(v, &mut junk(), &mut sc);
            let rsf = sm.faces_of_vertex(v, &mut junk(), &mut sf);
            json!({
                "orig": appended(EId(S), ra, a), "end": appended(EId(S), rb, b2),
                "all": appended(EId(S), rc, c), "faces": appended(FId(S), rf, f),
                "sorig": appended(EId(S), rsa, sa), "send": appended(EId(S), rsb, sb),
                "sall": appended(EId(S), rsc, sc), "sfaces": appended(FId(S), rsf, sf),
                "ens": he.ensure_vertex_id(v).is_ok(),
            })
        })
        .collect();
    let faces: Vec<Value> = (0..=nf)
        .map(|f| {
            let f = FId(f);
            let mut en = vec![FId(S)];
            let mut vn = vec![FId(S); us(&case["vnpre"])];
            let ren = sm.face_edge_neighbours(f, &mut en);
            let rvn = sm.face_vertex_neighbours(f, &mut junk(), &mut vn);
            json!({
                "edges": match sm.edges_of_face(f) {
                    Some((a, b, c)) => json!([a.0, b.0, c.0]),
                    None => json!([]),
                },
                "en": appended(FId(S), ren, en),
                "vn": match rvn { Ok(()) => json!(vn.iter().map(|x| x.0).collect::<Vec<_>>()), Err(e) => json!(err(&e)) },
                "ens": sm.ensure_face_id(f).is_ok(),
                "ids": match sm.face_vertex_ids(f) { Some(x) => json!([x.a.0, x.b.0, x.c.0]), None => json!([]) },
            })
        })
        .collect();
    let far = FAR.iter().all(|x| {
        let (e, v, f) = (EId(*x), VId(*x), FId(*x));
        let (mut r, mut q) = (Vec::new(), Vec::new());
        he.tail(e).is_none() && he.next(e).is_none() && he.prev(e).is_none() && he.twin(e).is_none() && he.face(e).is_none()
            && he.ensure_edge_id(e).is_err() && he.ensure_vertex_id(v).is_err() && sm.ensure_face_id(f).is_err()
            && sm.edge_tail(e).is_none() && sm.edge_head(e).is_none() && sm.edge_next(e).is_none() && sm.edge_prev(e).is_none()
            && sm.edge_twin(e).is_none() && sm.edge_face(e).is_none() && sm.edges_of_face(f).is_none()
            && sm.face_vertex_ids(f).is_none() && sm.face_vertices(f).is_none() && sm.vertex(v).is_none()
            && he.edges_originating(v, &mut r).is_err() && he.edges_ending(v, &mut junk(), &mut r).is_err()
            && he.edges_all(v, &mut junk(), &mut r).is_err() && he.faces(v, &mut junk(), &mut q).is_err()
            && sm.edges_originating_from_vertex(v, &mut r).is_err() && sm.edges_ending_at_vertex(v, &mut junk(), &mut r).is_err()
            && sm.edges_of_vertex(v, &mut junk(), &mut r).is_err() && sm.faces_of_vertex(v, &mut junk(), &mut q).is_err()
            && sm.face_edge_neighbours(f, &mut q).is_err() && sm.face_vertex_neighbours(f, &mut junk(), &mut q).is_err()
            && r.is_empty() && q.is_empty()
    });
    let own = Own(&sm).num_edges();
    let ne = if own == sm.num_edges() { json!(own) } else { json!("default differs") };
    json!({"edges": edges, "verts": verts, "faces": faces, "ne": ne,
           "nf": sm.num_faces(), "nv": sm.num_vertices(), "far": far})
}

pub fn half_edge(case: &Value) -> Value {
    match st(&case["ic"]) {
        "dyn" => he_run::<DynamicPrecisionIndexVec>(case),
        "u32" => he_run::<U32IndexVec>(case),
        _ => he_run::<Vec<usize>>(case),
    }
}
