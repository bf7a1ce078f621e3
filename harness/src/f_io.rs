//! File readers behind a scripted byte source, file savers behind a scripted sink.
use crate::f_spatial::p3;
use crate::util::*;
use rust_3d::io::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::io::{BufRead, Error, ErrorKind as K, Read, Result as R, Seek, SeekFrom, Write};

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;

fn error_kind(case: &Value) -> K {
    match case["kind"].as_u64().unwrap_or(0) {
        0 => K::Other,
        1 => K::UnexpectedEof,
        2 => K::WouldBlock,
        3 => K::TimedOut,
        4 => K::BrokenPipe,
        5 => K::InvalidData,
        6 => K::PermissionDenied,
        _ => K::ConnectionReset,
    }
}

/// Delivers the bytes in the given chunk sizes (cyclic), fails at a position, is interrupted now and then.
pub struct Source {
    data: Vec<u8>,
    pos: usize,
    end: usize,
    chunks: Vec<usize>,
    ci: usize,
    fail: Option<usize>,
    intr: usize,
    calls: usize,
    kind: K,
}
impl Source {
    fn new(case: &Value) -> Self {
        let data = match &case["hex"] {
            Value::String(h) => (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex"))
                .collect(),
            _ => st(&case["text"]).as_bytes().to_vec(),
        };
        let chunks = match &case["chunks"] {
            Value::Array(_) => uss(&case["chunks"]),
            _ => vec![],
        };
        Source {
            data,
            pos: 0,
            end: 0,
            chunks,
            ci: 0,
            fail: case["fail"].as_u64().map(|x| x as usize),
            intr: case["intr"].as_u64().unwrap_or(0) as usize,
            calls: 0,
            kind: error_kind(case),
        }
    }
}
impl BufRead for Source {
    fn fill_buf(&mut self) -> R<&[u8]> {
        if self.pos >= self.end {
            self.calls += 1;
            if self.intr > 0 && self.calls % self.intr == 0 {
                return Err(Error::new(K::Interrupted, "again"));
            }
            if self.fail == Some(self.pos) {
                return Err(Error::new(self.kind, "fault"));
            }
            let want = if self.chunks.is_empty() {
                self.data.len()
            } else {
                self.ci += 1;
                self.chunks[(self.ci - 1) % self.chunks.len()].max(1)
            };
            let lim = self.fail.unwrap_or(self.data.len()).min(self.data.len());
            self.end = self.pos.saturating_add(want).min(lim.max(self.pos));
        }
        let (a, b) = (self.pos.min(self.data.len()), self.end.min(self.data.len()));
        Ok(&self.data[a..b.max(a)])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> R<usize> {
        let n = {
            let have = self.fill_buf()?;
            let n = have.len().min(buf.len());
            buf[..n].copy_from_slice(&have[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> R<u64> {
        match to {
            SeekFrom::Start(x) => {
                self.pos = x as usize;
                self.end = self.pos;
                Ok(x)
            }
            _ => Err(Error::new(K::Other, "unsupported seek")),
        }
    }
}

trait HasLine {
    fn line_no(&self) -> i64;
}
impl<E> HasLine for WithLineInfo<E> {
    fn line_no(&self) -> i64 {
        match self {
            WithLineInfo::None(_) => -1,
            WithLineInfo::Index(i, _) => *i as i64,
            WithLineInfo::Line(i, _, _) => *i as i64,
        }
    }
}
impl HasLine for PslError {
    fn line_no(&self) -> i64 {
        -1
    }
}
impl HasLine for LasError {
    fn line_no(&self) -> i64 {
        -1
    }
}

fn o2(p: &Point2D) -> Value {
    json!(["p", num_s(p.x, 1000.0), num_s(p.y, 1000.0)])
}
fn o3(p: &Point3D) -> Value {
    json!(["p", num_s(p.x, 1000.0), num_s(p.y, 1000.0), num_s(p.z, 1000.0)])
}
fn face(f: [usize; 3]) -> Value {
    json!(["f", big(f[0]), big(f[1]), big(f[2])])
}
/// TLC integers have 32 bits
fn big(n: usize) -> Value {
    if n <= 2_000_000_000 {
        json!(n)
    } else {
        json!(2_000_000_001u64)
    }
}
fn rd<T>(x: DataReserve<T>, f: impl Fn(&T) -> Value) -> Value {
    match x {
        DataReserve::Data(d) => f(&d),
        DataReserve::Reserve(n) => json!(["r", big(n)]),
    }
}
fn fdr(x: FaceDataReserve<Point3D>) -> Value {
    match x {
        FaceDataReserve::Face(f) => face(f),
        FaceDataReserve::Data(d) => o3(&d),
        FaceDataReserve::ReserveDataFaces(a, b) => json!(["r", big(a), big(b)]),
    }
}

/// Asks for items up to the end or the first error, and a few times more after that.
fn drive<I, T, E>(it: I, cap: usize, show: impl Fn(T) -> Value) -> Value
where
    I: Iterator<Item = std::result::Result<T, E>>,
    E: HasLine + std::fmt::Debug,
{
    let mut it = it;
    let mut items = vec![];
    let mut last = json!(["runaway"]);
    for _ in 0..cap {
        match it.next() {
            None => {
                last = json!(["end", 0]);
                break;
            }
            Some(Err(e)) => {
                last = json!(["err", e.line_no()]);
                break;
            }
            Some(Ok(x)) => items.push(show(x)),
        }
    }
    let more: Vec<Value> = (0..4)
        .map(|_| match it.next() {
            None => json!("end"),
            Some(Err(_)) => json!("err"),
            Some(Ok(_)) => json!("item"),
        })
        .collect();
    json!({"items": items, "last": last, "more": more})
}
fn started<I, T, E>(it: std::result::Result<I, E>, cap: usize, show: impl Fn(T) -> Value) -> Value
where
    I: Iterator<Item = std::result::Result<T, E>>,
    E: HasLine + std::fmt::Debug,
{
    match it {
        Err(e) => json!({"items": [], "last": ["err", e.line_no()], "more": ["end", "end", "end", "end"]}),
        Ok(it) => drive(it, cap, show),
    }
}

fn mesh_out(r: &str, m: &M, n: &[Point3D]) -> Value {
    let vs: Vec<Value> = (0..m.num_vertices())
        .map(|i| o3(&m.vertex(VId(i)).unwrap()))
        .collect();
    let fs: Vec<Value> = (0..m.num_faces())
        .map(|i| {
            let f = m.face_vertex_ids(FId(i)).unwrap();
            face([f.a.0, f.b.0, f.c.0])
        })
        .collect();
    json!({"r": r, "p": vs, "f": fs, "n": n.iter().map(o3).collect::<Vec<_>>()})
}
fn pts_out(r: &str, p: &[Value]) -> Value {
    json!({"r": r, "p": p, "f": [], "n": []})
}
fn okr<T, E>(r: &std::result::Result<T, E>) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}
fn v3(p: &PointCloud3D<Point3D>) -> Vec<Value> {
    p.data.iter().map(o3).collect()
}
fn empty_mesh() -> M {
    M::default()
}

pub fn read(case: &Value) -> Value {
    let s = || Source::new(case);
    let cap = s().data.len() * 2 + 50;
    let fmt = st(&case["fmt"]);
    let mut pc = PointCloud3D::<Point3D>::new();
    let mut me = empty_mesh();
    let sf = match st(&case["told"]) {
        "ascii" => StlFormat::Ascii,
        "binary" => StlFormat::Binary,
        _ => StlFormat::Auto,
    };
    // readers with two kinds of loads observe both; "load2" is empty otherwise
    let none = json!({"r": "-", "p": [], "f": [], "n": []});
    let (it, it2, load, load2) = match fmt {
        "xy" => {
            let it = drive(XyIterator::<Point2D, _>::new(s()), cap, |p| o2(&p));
            let mut pc2 = PointCloud2D::<Point2D>::new();
            let r = load_xy(s(), &mut pc2);
            let l = pts_out(okr(&r), &pc2.data.iter().map(o2).collect::<Vec<_>>());
            (it, Value::Null, l, none)
        }
        "xyz" => {
            let it = drive(XyzIterator::<Point3D, _>::new(s()), cap, |p| o3(&p));
            let r = load_xyz(s(), &mut pc);
            (it, Value::Null, pts_out(okr(&r), &v3(&pc)), none)
        }
        "pts" => {
            let it = drive(PtsIterator::<Point3D, _>::new(s()), cap, |x| rd(x, o3));
            let r = load_pts(s(), &mut pc);
            (it, Value::Null, pts_out(okr(&r), &v3(&pc)), none)
        }
        "ptx" => {
            let it = drive(PtxIterator::<Point3D, _>::new(s()), cap, |x| rd(x, o3));
            let r = load_ptx(s(), &mut pc);
            (it, Value::Null, pts_out(okr(&r), &v3(&pc)), none)
        }
        "psl" => {
            let it = drive(PslIterator::<Point3D, _>::new(s()), cap, |p| o3(&p));
            let r = load_psl(s(), &mut pc);
            (it, Value::Null, pts_out(okr(&r), &v3(&pc)), none)
        }
        "gcode" => {
            let it = drive(GcodeIterator::<Point3D, _>::new(s()), cap, |p| o3(&p));
            let r = load_gcode_points(s(), &mut pc);
            (it, Value::Null, pts_out(okr(&r), &v3(&pc)), none)
        }
        "las" => {
            let it = started(LasIterator::<Point3D, _>::new(s()), cap, |x| rd(x, o3));
            let r = load_las(s(), &mut pc);
            (it, Value::Null, pts_out(okr(&r), &v3(&pc)), none)
        }
        "obj" => {
            let it = drive(ObjMeshIterator::<Point3D, _>::new(s()), cap, |x| match x {
                FaceData::Face(f) => face(f),
                FaceData::Data(d) => o3(&d),
            });
            let it2 = drive(ObjPointsIterator::<Point3D, _>::new(s()), cap, |p| o3(&p));
            let r = load_obj_mesh(s(), &mut me);
            let r2 = load_obj_points(s(), &mut pc);
            (it, it2, mesh_out(okr(&r), &me, &[]), pts_out(okr(&r2), &v3(&pc)))
        }
        "off" => {
            let it = drive(OffMeshIterator::<Point3D, _>::new(s()), cap, fdr);
            let it2 = drive(OffPointsIterator::<Point3D, _>::new(s()), cap, |x| rd(x, o3));
            let r = load_off_mesh(s(), &mut me);
            let r2 = load_off_points(s(), &mut pc);
            (it, it2, mesh_out(okr(&r), &me, &[]), pts_out(okr(&r2), &v3(&pc)))
        }
        "ply" => {
            let it = started(PlyMeshIterator::<Point3D, _>::new(s()), cap, fdr);
            let it2 = started(PlyPointsIterator::<Point3D, _>::new(s()), cap, |x| rd(x, o3));
            let r = load_ply_mesh(s(), &mut me);
            let r2 = load_ply_points(s(), &mut pc);
            (it, it2, mesh_out(okr(&r), &me, &[]), pts_out(okr(&r2), &v3(&pc)))
        }
        "stl" => {
            let show = |x: DataReserve<StlFace<Point3D>>| {
                rd(x, |f| json!(["t", o3(&f.a), o3(&f.b), o3(&f.c), o3(&f.n)]))
            };
            let it = started(StlIterator::<Point3D, _>::new(s(), sf), cap, show);
            let mut n: Vec<Point3D> = vec![];
            let r = load_stl_mesh_unique(s(), sf, &mut me, &mut n);
            let l = mesh_out(okr(&r), &me, &n);
            let mut me2 = empty_mesh();
            let mut n2: Vec<Point3D> = vec![];
            let r2 = load_stl_mesh_duped(s(), sf, &mut me2, &mut n2);
            let l2 = mesh_out(okr(&r2), &me2, &n2);
            let mut n3: Vec<Point3D> = vec![];
            let r3 = load_stl_triplets(s(), sf, &mut pc, &mut n3);
            let l3 = json!({"r": okr(&r3), "p": v3(&pc), "f": [], "n": n3.iter().map(o3).collect::<Vec<_>>()});
            return json!({"it": it, "load": l, "load2": l2, "load3": l3});
        }
        _ => panic!("HARNESS format"),
    };
    let mut out = json!({"it": it, "load": load, "load2": load2});
    if !it2.is_null() {
        out["it2"] = it2;
    }
    if fmt == "ply" {
        let mut me = empty_mesh();
        let mut pc = PointCloud3D::<Point3D>::new();
        let r = load_ply_either(s(), &mut me, &mut pc);
        let kind = match &r {
            Err(_) => "err",
            Ok(MeshOrPoints::Mesh) => "mesh",
            Ok(MeshOrPoints::Points) => "points",
        };
        let mut l = mesh_out(okr(&r), &me, &[]);
        l["q"] = json!(v3(&pc));
        l["kind"] = json!(kind);
        out["either"] = l;
    }
    out
}

/// Accepts at most the given number of bytes per call (cyclic), fails at a position.
pub struct Sink {
    pub data: Vec<u8>,
    accept: Vec<usize>,
    calls: usize,
    fail: Option<usize>,
    intr: usize,
    zero: bool,
    kind: K,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> R<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(Error::new(K::Interrupted, "again"));
        }
        let mut n = buf.len();
        if !self.accept.is_empty() {
            n = n.min(self.accept[self.calls % self.accept.len()].max(1));
        }
        if let Some(f) = self.fail {
            if self.data.len() >= f && !buf.is_empty() {
                return if self.zero {
                    Ok(0)
                } else {
                    Err(Error::new(self.kind, "fault"))
                };
            }
            n = n.min(f - self.data.len());
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> R<()> {
        Ok(())
    }
}
fn hex(d: &[u8]) -> String {
    d.iter().map(|x| format!("{:02x}", x)).collect()
}

fn bits(x: f64) -> Value {
    json!(format!("{:016x}", x.to_bits()))
}
fn unbits(v: &Value) -> f64 {
    f64::from_bits(u64::from_str_radix(st(v), 16).expect("HARNESS bits"))
}
fn bits3<P: Is3D>(p: &P) -> Value {
    json!([bits(p.x()), bits(p.y()), bits(p.z())])
}
fn mesh_bits(r: &str, m: &M, n: &[Point3D]) -> Value {
    let fs: Vec<Value> = (0..m.num_faces())
        .map(|i| {
            let f = m.face_vertex_ids(FId(i)).unwrap();
            face([f.a.0, f.b.0, f.c.0])
        })
        .collect();
    let vs: Vec<Value> = (0..m.num_vertices()).map(|i| bits3(&m.vertex(VId(i)).unwrap())).collect();
    json!({"r": r, "p": vs, "f": fs, "n": n.iter().map(bits3).collect::<Vec<_>>()})
}
fn points_bits(r: &str, p: &[Value], n: &[Point3D]) -> Value {
    json!({"r": r, "p": p, "f": [], "n": n.iter().map(bits3).collect::<Vec<_>>()})
}
/// What the loaders make of saved bytes, bit by bit
fn load_back(fmt: &str, data: &[u8]) -> Value {
    let s = || std::io::Cursor::new(data.to_vec());
    let mut pc = PointCloud3D::<Point3D>::new();
    let mut me = empty_mesh();
    match fmt {
        "xy" => {
            let mut pc2 = PointCloud2D::<Point2D>::new();
            let r = load_xy(s(), &mut pc2);
            let p: Vec<Value> = pc2.data.iter().map(|p| json!([bits(p.x), bits(p.y)])).collect();
            json!({"load": points_bits(okr(&r), &p, &[])})
        }
        "xyz" => {
            let r = load_xyz(s(), &mut pc);
            json!({"load": points_bits(okr(&r), &pc.data.iter().map(bits3).collect::<Vec<_>>(), &[])})
        }
        "stl" => {
            let mut n: Vec<Point3D> = vec![];
            let r = load_stl_mesh_unique(s(), StlFormat::Auto, &mut me, &mut n);
            let l = mesh_bits(okr(&r), &me, &n);
            let mut me2 = empty_mesh();
            let mut n2: Vec<Point3D> = vec![];
            let r2 = load_stl_mesh_duped(s(), StlFormat::Ascii, &mut me2, &mut n2);
            let mut n3: Vec<Point3D> = vec![];
            let r3 = load_stl_triplets(s(), StlFormat::Auto, &mut pc, &mut n3);
            let p3: Vec<Value> = pc.data.iter().map(bits3).collect();
            json!({"load": l, "load2": mesh_bits(okr(&r2), &me2, &n2), "load3": points_bits(okr(&r3), &p3, &n3)})
        }
        _ => {
            let r = load_ply_mesh(s(), &mut me);
            let r2 = load_ply_points(s(), &mut pc);
            json!({"load": mesh_bits(okr(&r), &me, &[]),
                   "load2": points_bits(okr(&r2), &pc.data.iter().map(bits3).collect::<Vec<_>>(), &[])})
        }
    }
}

/// Saves with an ideal sink and with the scripted one, then loads the ideal bytes back.
pub fn save(case: &Value) -> Value {
    let pts: Vec<Point3D> = arr(&case["P"])
        .iter()
        .map(|v| {
            let z = if arr(v).len() > 2 { unbits(&v[2]) } else { 0.0 };
            Point3D::new(unbits(&v[0]), unbits(&v[1]), z)
        })
        .collect();
    let mut m = empty_mesh();
    for p in &pts {
        m.add_vertex(p.clone());
    }
    for f in arr(&case["F"]) {
        let f = uss(f);
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]))
            .expect("HARNESS face");
    }
    let colors: Vec<Rgb> = arr(&case["C"])
        .iter()
        .map(|c| {
            let c = uss(c);
            Rgb::new(c[0] as u8, c[1] as u8, c[2] as u8)
        })
        .collect();
    let pc2 = PointCloud2D {
        data: pts.iter().map(|p| Point2D::new(p.x, p.y)).collect::<Vec<_>>(),
    };
    let pc3 = PointCloud3D { data: pts.clone() };
    let dc = st(&case["dc"]);
    let dp = st(&case["dp"]);
    let how = st(&case["how"]);
    let run = |w: &mut Sink| -> bool {
        match how {
            "xy" => save_xy(w, &pc2, dc, dp).is_ok(),
            "xyz" => save_xyz(w, &pc3, dc, dp).is_ok(),
            "ply-a" => save_ply_ascii(w, &m).is_ok(),
            "ply-ac" => save_ply_ascii_colored(w, &m, &colors).is_ok(),
            "ply-b32" => save_ply_binary(w, &m, &Precision::P32).is_ok(),
            "ply-b64" => save_ply_binary(w, &m, &Precision::P64).is_ok(),
            "ply-bc32" => save_ply_binary_colored(w, &m, &Precision::P32, &colors).is_ok(),
            "ply-bc64" => save_ply_binary_colored(w, &m, &Precision::P64, &colors).is_ok(),
            "stl" => save_stl_ascii(w, &m).is_ok(),
            _ => panic!("HARNESS saver"),
        }
    };
    let sink = |accept: Vec<usize>, fail: Option<usize>, intr: usize, zero: bool| Sink {
        data: vec![],
        accept,
        calls: 0,
        fail,
        intr,
        zero,
        kind: error_kind(case),
    };
    let mut ideal = sink(vec![], None, 0, false);
    let ok = run(&mut ideal);
    let mut scripted = sink(
        uss(&case["accept"]),
        case["fail"].as_u64().map(|x| x as usize),
        case["intr"].as_u64().unwrap_or(0) as usize,
        b(&case["zero"]),
    );
    let ok2 = run(&mut scripted);
    // colours as written
    let mut rgb = vec![];
    let fmt = how.split('-').next().unwrap();
    if ok && how == "ply-ac" {
        let text = String::from_utf8_lossy(&ideal.data).to_string();
        let body: Vec<&str> = text.split("end_header\n").nth(1).unwrap_or("").lines().collect();
        for l in body.iter().take(pts.len()) {
            let w: Vec<i64> = l.split(' ').skip(3).map(|x| x.parse().unwrap_or(-1)).collect();
            rgb.push(json!(w));
        }
    }
    if ok && (how == "ply-bc32" || how == "ply-bc64") {
        let size = if how == "ply-bc32" { 12 } else { 24 };
        let mark = b"end_header\n";
        let at = ideal
            .data
            .windows(mark.len())
            .position(|w| w == mark)
            .map(|x| x + mark.len())
            .unwrap_or(0);
        for i in 0..pts.len() {
            let o = at + i * (size + 3) + size;
            rgb.push(json!(ideal.data[o..o + 3].iter().map(|x| *x as i64).collect::<Vec<_>>()));
        }
    }
    let total = ideal.data.len();
    let prefix = ideal.data.starts_with(&scripted.data);
    let mut out = if ok { load_back(fmt, &ideal.data) } else { json!({}) };
    let normals: Vec<Value> = (0..if how == "stl" { m.num_faces() } else { 0 })
        .map(|i| {
            let f = m.face_vertex_ids(FId(i)).unwrap();
            bits3(&normal_of_face(&pts[f.a.0], &pts[f.b.0], &pts[f.c.0]))
        })
        .collect();
    for (k, v) in [("ok", json!(ok)), ("ok2", json!(ok2)), ("total", json!(total)), ("got", json!(scripted.data.len())),
                   ("prefix", json!(prefix)), ("rgb", json!(rgb)), ("normals", json!(normals))] {
        out[k] = v;
    }
    out
}
