//! the basis-function cache: requests from clones of several samplers, in several threads
use crate::mesh_drv::{apply_op, key_map, load_mesh};
use crate::util::*;
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn};
use fem_2d::fem_domain::domain::mesh::elem::Elem;
use fem_2d::fem_problem::integration::glq::gauss_quadrature_points;
use fem_2d::prelude::*;
use json::{array, object, JsonValue};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

type Curl = HierCurlBasisFn<HierPoly>;

fn us(v: &JsonValue) -> usize {
    v.as_usize().unwrap()
}
fn digest(v: &[f64]) -> String {
    let mut h = DefaultHasher::new();
    for x in v {
        x.to_bits().hash(&mut h);
    }
    format!("{:016x}", h.finish())
}

/// what the session shares with the logging basis type
struct Board {
    log: Mutex<Vec<JsonValue>>,
    keys: Mutex<HashMap<usize, String>>,
    /// constructions of a pair that still have to fail
    boom: Mutex<HashMap<(String, String), usize>>,
    serial: Mutex<usize>,
}
static BOARD: Mutex<Option<Arc<Board>>> = Mutex::new(None);
thread_local! {
    /// thread number, sampler group, delay of constructions (us)
    static ME: RefCell<(usize, usize, u64)> = const { RefCell::new((0, 0, 0)) };
}
fn board() -> Arc<Board> {
    BOARD.lock().unwrap_or_else(|e| e.into_inner()).clone().unwrap()
}
impl Board {
    fn put(&self, v: JsonValue) {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push(v);
    }
    fn key(&self, id: usize) -> String {
        self.keys.lock().unwrap().get(&id).cloned().unwrap_or("?".into())
    }
}

/// a basis function that only remembers how it was made
struct Noted {
    what: JsonValue,
}

impl HierBasisFn for Noted {
    fn defined_over(elem: &Elem, desc: Option<&Elem>, uv: [&[f64]; 2], ij: [usize; 2], d2: bool) -> Self {
        let b = board();
        let (t, g, delay) = ME.with(|m| *m.borrow());
        let (x, y) = (b.key(elem.id), desc.map_or(String::new(), |d| b.key(d.id)));
        let serial = {
            let mut s = b.serial.lock().unwrap_or_else(|e| e.into_inner());
            *s += 1;
            *s
        };
        let what = object! {
            "n": serial, "x": x.clone(), "y": y.clone(), "pu": digest(uv[0]), "pv": digest(uv[1]), "o": array![ij[0], ij[1]], "d2": d2,
        };
        b.put(object! { "k": "build", "t": t, "g": g, "w": what.clone() });
        if delay > 0 {
            std::thread::sleep(Duration::from_micros(delay));
        }
        let fails = {
            let mut m = b.boom.lock().unwrap_or_else(|e| e.into_inner());
            match m.get_mut(&(x, y)) {
                Some(n) if *n > 0 => {
                    *n -= 1;
                    true
                }
                _ => false,
            }
        };
        if fails {
            b.put(object! { "k": "boom", "t": t, "g": g, "n": serial });
            panic!("planned");
        }
        Noted { what }
    }
}

/// everything a real basis function lets its users see
fn curl_digest(b: &Curl, n: [usize; 2], o: [usize; 2], d2: bool) -> String {
    let mut v = vec![b.glq_scale(), b.u_glq_scale(), b.v_glq_scale()];
    let ps = *b.deriv_scale();
    for m in 0..n[0] {
        for k in 0..n[1] {
            v.push(b.sample_scale([m, k]));
            for i in 0..=o[0] {
                for j in 0..=o[1] {
                    for f in [b.f_u([i, j], [m, k]), b.f_v([i, j], [m, k]), b.f_u_d1([i, j], [m, k], &ps), b.f_v_d1([i, j], [m, k], &ps)] {
                        v.extend([f[0], f[1]]);
                    }
                    if d2 {
                        for f in [b.f_u_d2([i, j], [m, k], &ps), b.f_v_d2([i, j], [m, k], &ps)] {
                            v.extend([f[0], f[1]]);
                        }
                    }
                }
            }
        }
    }
    digest(&v)
}

enum Smp {
    Noted(BasisFnSampler<Noted>),
    Curl(BasisFnSampler<Curl>),
}
impl Clone for Smp {
    fn clone(&self) -> Self {
        match self {
            Smp::Noted(s) => Smp::Noted(s.clone()),
            Smp::Curl(s) => Smp::Curl(s.clone()),
        }
    }
}
struct Group {
    s: Smp,
    uv: [Vec<f64>; 2],
    o: [usize; 2],
    d2: bool,
}

fn request(b: &Board, m: &Mesh, t: usize, r: &JsonValue, smp: &mut Smp, g: &Group, gi: usize) {
    let keys = b.keys.lock().unwrap().clone();
    let id = |k: &str| keys.iter().find(|(_, v)| *v == k).map(|(i, _)| *i);
    let (x, y) = (r[0].as_str().unwrap(), r[1].as_str().unwrap());
    let (ex, ey) = match (id(x), if y.is_empty() { Some(usize::MAX) } else { id(y) }) {
        (Some(a), Some(c)) => (a, if y.is_empty() { None } else { Some(c) }),
        _ => return,
    };
    let (e, d) = (&m.elems[ex], ey.map(|c| &m.elems[c]));
    ME.with(|me| *me.borrow_mut() = (t, gi, r[3].as_u64().unwrap()));
    b.put(object! { "k": "req", "t": t, "g": gi, "x": x, "y": y });
    let out = match smp {
        Smp::Noted(s) => match guarded(|| s.sample_basis_fn(e, d)) {
            Some(got) => object! { "k": "ret", "t": t, "g": gi, "w": got.what.clone() },
            None => object! { "k": "fail", "t": t, "g": gi },
        },
        Smp::Curl(s) => {
            let n = [g.uv[0].len(), g.uv[1].len()];
            let direct = guarded(|| Curl::defined_over(e, d, [&g.uv[0], &g.uv[1]], g.o, g.d2)).map(|f| curl_digest(&f, n, g.o, g.d2));
            let got = guarded(|| s.sample_basis_fn(e, d)).map(|f| curl_digest(&f, n, g.o, g.d2));
            object! { "k": "curl", "t": t, "g": gi, "d": direct.unwrap_or("panic".into()), "c": got.unwrap_or("panic".into()) }
        }
    };
    b.put(out);
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let unit: f64 = scn["unit"].as_str().and_then(|u| u.parse().ok()).expect("unit");
    let scratch = std::env::var("FEMDRV_SCRATCH").expect("scratch");
    let mut m = load_mesh(scn, unit, &scratch).0.expect("mesh");
    let b = Arc::new(Board {
        log: Mutex::new(Vec::new()),
        keys: Mutex::new(HashMap::new()),
        boom: Mutex::new(scn["boom"].members().map(|p| ((p[0].to_string(), p[1].to_string()), us(&p[2]))).collect()),
        serial: Mutex::new(0),
    });
    *BOARD.lock().unwrap_or_else(|e| e.into_inner()) = Some(b.clone());
    let mut groups = Vec::new();
    let mut heads = Vec::new();
    for g in scn["groups"].members() {
        let (o, d2) = ([us(&g["o"][0]), us(&g["o"][1])], g["d2"].as_bool().unwrap());
        let n = |k: usize| if us(&g["n"][k]) == 0 { None } else { Some(us(&g["n"][k])) };
        // the points the sampler must use, for every number of points the specification may ask for
        let rules = arr(g["ns"].members().map(|k| {
            let (p, w) = gauss_quadrature_points(us(k), d2);
            array![us(k), digest(&p), digest(&w)]
        }));
        let own = |k: usize| gauss_quadrature_points(us(&g["own"][k]), d2).0;
        let (s, w, set) = if g["curl"].as_bool().unwrap() {
            let (s, w) = BasisFnSampler::<Curl>::with(o[0], o[1], n(0), n(1), d2);
            let set = array![s.i_max, s.j_max];
            (Smp::Curl(s), w, set)
        } else {
            let (s, w) = BasisFnSampler::<Noted>::with(o[0], o[1], n(0), n(1), d2);
            let set = array![s.i_max, s.j_max];
            (Smp::Noted(s), w, set)
        };
        groups.push(Group { s, uv: [own(0), own(1)], o, d2 });
        let mut h = g.clone();
        h.remove("ns");
        h["rules"] = rules;
        h["w"] = array![digest(&w[0]), digest(&w[1])];
        h["set"] = set;
        heads.push(h);
    }
    for ph in scn["phases"].members() {
        for op in ph["ops"].members() {
            apply_op(&mut m, op);
        }
        *b.keys.lock().unwrap() = key_map(&m).into_iter().map(|(k, i)| (i, k)).collect();
        let threads: Vec<&JsonValue> = ph["threads"].members().collect();
        let gate = Barrier::new(threads.len());
        let (mr, gr, br, gt) = (&m, &groups, &b, &gate);
        std::thread::scope(|sc| {
            let mut last: HashMap<usize, Smp> = HashMap::new();
            for (t, reqs) in threads.iter().enumerate() {
                // every thread has clones of its own, made from the first sampler or from the clone before it
                let mut mine: HashMap<usize, Smp> = HashMap::new();
                for gi in 0..gr.len() {
                    let s = match last.get(&gi) {
                        Some(p) if t % 2 == 1 => p.clone(),
                        _ => gr[gi].s.clone(),
                    };
                    last.insert(gi, s.clone());
                    mine.insert(gi, s);
                }
                sc.spawn(move || {
                    gt.wait();
                    for r in reqs.members() {
                        let gi = us(&r[2]);
                        request(br, mr, t + 1, r, mine.get_mut(&gi).unwrap(), &gr[gi], gi);
                    }
                });
            }
        });
    }
    *BOARD.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let log = std::mem::take(&mut *b.log.lock().unwrap_or_else(|e| e.into_inner()));
    object! { "sid": scn["sid"].clone(), "groups": arr(heads), "log": JsonValue::Array(log) }
}
