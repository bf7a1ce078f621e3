//! Views, filter logic and collection filters.
use crate::util::*;
use rust_3d::*;
use serde_json::{json, Value};
use std::collections::{HashSet, LinkedList, VecDeque};

fn sorted(v: &View) -> Vec<usize> {
    match v {
        View::Full => vec![],
        View::Restricted(s) => {
            let mut r: Vec<usize> = s.iter().cloned().collect();
            r.sort();
            r
        }
    }
}

fn run<C: IsViewBuildable>(case: &Value, mut c: C, push: &dyn Fn(&mut C, i64), show: &dyn Fn(&C) -> Vec<Value>) -> Value {
    for x in arr(&case["d"]) {
        push(&mut c, x.as_i64().unwrap());
    }
    let mut w = View::Full;
    history(case, |op| {
        let mut f = vec![];
        let mut r = "ok";
        let set = |op: &Value| View::Restricted(uss(&op["i"]).into_iter().collect());
        match st(&op["op"]) {
            "start" => {}
            "push" => push(&mut c, op["x"].as_i64().unwrap()),
            "set" => w = set(op),
            "setfull" => w = View::Full,
            "union" => w.union(set(op)),
            "unionfull" => w.union(View::Full),
            "apply" => {
                if c.apply_view(&w).is_err() {
                    r = "err"
                }
            }
            "from" => match c.from_view(&w) {
                Some(x) => f = show(&x),
                None => r = "err",
            },
            _ => panic!("HARNESS"),
        }
        // a position far beyond the end is refused, alone or along with others
        let before = show(&c);
        for x in FAR.iter() {
            for s in [vec![*x], vec![0, *x]] {
                let v = View::Restricted(s.into_iter().collect());
                if c.apply_view(&v).is_ok() || c.from_view(&v).is_some() || show(&c) != before {
                    r = "far";
                }
            }
        }
        json!({"r": r, "d": show(&c), "full": w == View::Full, "w": sorted(&w), "f": f})
    })
}

pub fn views(case: &Value) -> Value {
    let v3 = |p: &Point3D| num(if p.x * 2.0 == p.y && p.z == p.x + 1.0 { p.x } else { f64::NAN });
    let v2 = |p: &Point2D| num(if p.x * 2.0 == p.y { p.x } else { f64::NAN });
    match st(&case["kind"]) {
        "vec" => run(case, Vec::<i64>::new(), &|c, x| c.push(x), &|c| c.iter().map(|x| json!(x)).collect()),
        "deque" => run(case, VecDeque::<i64>::new(), &|c, x| c.push_back(x), &|c| c.iter().map(|x| json!(x)).collect()),
        "list" => run(case, LinkedList::<i64>::new(), &|c, x| c.push_back(x), &|c| c.iter().map(|x| json!(x)).collect()),
        "pc2" => run(case, PointCloud2D::<Point2D>::new(), &|c, x| c.push(Point2D::new(x as f64, 2.0 * x as f64)),
            &|c| c.data.iter().map(|p| v2(p)).collect()),
        "pc3" => run(case, PointCloud3D::<Point3D>::new(), &|c, x| c.push(Point3D::new(x as f64, 2.0 * x as f64, 1.0 + x as f64)),
            &|c| c.data.iter().map(|p| v3(p)).collect()),
        k => panic!("HARNESS kind {}", k),
    }
}

struct InSet(HashSet<usize>);
impl IsFilter<usize> for InSet {
    fn is_allowed(&self, x: &usize) -> bool {
        self.0.contains(x)
    }
}
impl IsFilter<Point3D> for InSet {
    fn is_allowed(&self, p: &Point3D) -> bool {
        self.0.contains(&(p.y as usize))
    }
}
/// makes a boxed filter usable inside the statically typed combinators
struct Dyn(Box<dyn IsFilter<usize>>);
impl IsFilter<usize> for Dyn {
    fn is_allowed(&self, x: &usize) -> bool {
        self.0.is_allowed(x)
    }
}

pub fn logic(case: &Value) -> Value {
    let mut s: Vec<Box<dyn IsFilter<usize>>> = vec![];
    history(case, |op| {
        let n = op["n"].as_u64().unwrap_or(0) as usize;
        let mut pop = || Dyn(s.pop().expect("HARNESS"));
        let f: Box<dyn IsFilter<usize>> = match st(&op["op"]) {
            "base" => Box::new(InSet((0..8).filter(|e| (e >> (n - 1)) & 1 == 1).collect())),
            "allow" => Box::new(FilterAllow::new()),
            "deny" => Box::new(FilterDeny::new()),
            "neg" => Box::new(FilterNegate::new(pop())),
            "and" => {
                let (b, a) = (pop(), pop());
                Box::new(FilterAND::new(a, b))
            }
            "or" => {
                let (b, a) = (pop(), pop());
                Box::new(FilterOR::new(a, b))
            }
            "xor" => {
                let (b, a) = (pop(), pop());
                Box::new(FilterXOR::new(a, b))
            }
            "oi" => {
                let (b, a) = (pop(), pop());
                Box::new(FilterOuterInner::new(a, b))
            }
            "all" => {
                let mut f = FilterAll::new();
                f.filters = (0..n).map(|_| pop().0).collect();
                f.filters.reverse();
                Box::new(f)
            }
            "any" => {
                let mut f = FilterAny::new();
                f.filters = (0..n).map(|_| pop().0).collect();
                f.filters.reverse();
                Box::new(f)
            }
            _ => panic!("HARNESS"),
        };
        let r: Vec<usize> = (0..8).filter(|e| f.is_allowed(e)).collect();
        s.push(f);
        json!(r)
    })
}

fn ra_run<RA, T>(case: &Value, ra: RA) -> Value
where
    RA: IsRandomAccessible<T> + Default + 'static,
    T: 'static,
    InSet: IsFilter<T>,
{
    let n = ra.len();
    let mut w = View::Full;
    let mut s: Vec<Box<dyn IsFilterRandomAccessible<RA, T>>> = vec![];
    history(case, |op| {
        let k = op["k"].as_u64().unwrap_or(0) as usize;
        match st(&op["op"]) {
            "leaf" => s.push(Box::new(FilterRandomAccessible::new(InSet(uss(&op["i"]).into_iter().collect())))),
            "all" => {
                let filters = s.split_off(s.len() - k);
                s.push(Box::new(FilterAllRandomAccessible { filters }));
            }
            "any" => {
                let filters = s.split_off(s.len() - k);
                s.push(Box::new(FilterAnyRandomAccessible { filters }));
            }
            "run" => s.pop().expect("HARNESS").filter(&ra, &mut w),
            "view" => w = View::Restricted(uss(&op["i"]).into_iter().collect()),
            "full" => w = View::Full,
            _ => panic!("HARNESS"),
        }
        // the selected positions
        let mut r: Vec<usize> = match &w {
            View::Full => (0..n).collect(),
            View::Restricted(i) => i.iter().cloned().filter(|_| n > 0).collect(),
        };
        r.sort();
        json!(r)
    })
}

pub fn ra(case: &Value) -> Value {
    let n = us(&case["n"]);
    match st(&case["kind"]) {
        "deque" => ra_run::<VecDeque<usize>, usize>(case, (0..n).collect()),
        "pc3" => {
            let mut pc = PointCloud3D::new();
            for i in 0..n {
                pc.push(Point3D::new(7.0, i as f64, 0.0));
            }
            ra_run::<PointCloud3D<Point3D>, Point3D>(case, pc)
        }
        _ => ra_run::<Vec<usize>, usize>(case, (0..n).collect()),
    }
}
