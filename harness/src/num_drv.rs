//! numeric observations of a mesh state (views named by small letters)
use crate::mesh_drv::{elem_key, fun_tuple, key_map, Ctx};
use crate::util::*;
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_domain::domain::mesh::space::V2D;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::fem_domain::domain::fields::UniformFieldError;
use fem_2d::prelude::*;
use json::{array, object, JsonValue};
use std::sync::Mutex;

pub type BF = HierCurlBasisFn<HierPoly>;

fn us(v: &JsonValue) -> usize {
    v.as_usize().expect("usize")
}
fn v2(v: V2D) -> JsonValue {
    array![hex(v[0]), hex(v[1])]
}

pub fn view(letter: char, c: &Ctx, m: &Mesh) -> JsonValue {
    let p = &c.num;
    match letter {
        'b' => arr(p["b"].members().map(|r| view_b(m, r))),
        'i' => arr(p["i"].members().map(|r| view_i(m, r))),
        'g' => arr(p["g"].members().map(|r| view_g(m, r))),
        'm' => arr(p["m"].members().map(|r| view_m(m, r))),
        's' => arr(p["s"].members().map(|r| view_m(m, r))),
        't' => view_t(c, m, &p["t"]),
        'f' => arr(p["f"].members().map(|r| view_f(c, m, r))),
        #[cfg(feature = "loc")]
        'l' => crate::loc_drv::view_l(c, m, &p["l"]),
        _ => JsonValue::Null,
    }
}

// ------------------------------------------------------------------ basis functions

fn view_b(m: &Mesh, r: &JsonValue) -> JsonValue {
    let mut out = r.clone();
    let keys = key_map(m);
    let (x, y) = match (keys.get(r["x"].as_str().unwrap()), keys.get(r["y"].as_str().unwrap_or(""))) {
        (Some(x), y) => (*x, y.copied()),
        _ => {
            out["res"] = "nokey".into();
            return out;
        }
    };
    let pu: Vec<f64> = r["pu"].members().map(unhex).collect();
    let pv: Vec<f64> = r["pv"].members().map(unhex).collect();
    let d2 = r["d2"].as_bool().unwrap();
    let made = guarded(|| {
        BF::defined_over(&m.elems[x], y.map(|y| &m.elems[y]), [&pu, &pv], [us(&r["ord"][0]), us(&r["ord"][1])], d2)
    });
    let bf = match made {
        Some(bf) => bf,
        None => {
            out["res"] = "panic".into();
            return out;
        }
    };
    let ps = V2D::from([unhex(&r["ps"][0]), unhex(&r["ps"][1])]);
    let vals = guarded(|| {
        arr(r["at"].members().map(|a| {
            let o = [us(&a[0]), us(&a[1])];
            let mn = [us(&a[2]), us(&a[3])];
            let (j, ji) = (bf.jac[mn[0]][mn[1]], bf.jac_inv[mn[0]][mn[1]]);
            let mut v = object! {
                "fu": v2(bf.f_u(o, mn)), "fv": v2(bf.f_v(o, mn)),
                "fu1": v2(bf.f_u_d1(o, mn, &ps)), "fv1": v2(bf.f_v_d1(o, mn, &ps)),
                "fuv": v2(bf.f_u_dd(o, mn, &ps)), "fvv": v2(bf.f_v_dd(o, mn, &ps)),
                "jac": array![hex(j.u[0]), hex(j.u[1]), hex(j.v[0]), hex(j.v[1])],
                "inv": array![hex(ji.u[0]), hex(ji.u[1]), hex(ji.v[0]), hex(ji.v[1])],
                "det": hex(bf.det_jac[mn[0]][mn[1]]), "smp": hex(bf.sample_scale(mn)),
                "uv": hex(bf.uv_ratio(mn)), "vu": hex(bf.vu_ratio(mn)), "mx": hex(bf.max_uv_ratio(mn)),
            };
            if d2 {
                v["fu2"] = v2(bf.f_u_d2(o, mn, &ps));
                v["fv2"] = v2(bf.f_v_d2(o, mn, &ps));
            }
            v
        }))
    });
    match vals {
        Some(v) => {
            out["res"] = "ok".into();
            out["vals"] = v;
            out["sc"] = array![
                hex(bf.para_scale[0]), hex(bf.para_scale[1]), hex(bf.glq_scale()), hex(bf.u_glq_scale()), hex(bf.v_glq_scale()),
                hex(bf.edge_glq_scale(0)), hex(bf.edge_glq_scale(1)), hex(bf.edge_glq_scale(2)), hex(bf.edge_glq_scale(3)),
                hex(bf.deriv_scale()[0]), hex(bf.deriv_scale()[1])
            ];
        }
        None => out["res"] = "panic".into(),
    }
    out
}

// ------------------------------------------------------------------ integrals of function pairs

fn bdir(v: &JsonValue) -> BasisDir {
    match v.as_str().unwrap() {
        "U" => BasisDir::U,
        "V" => BasisDir::V,
        _ => BasisDir::W,
    }
}

fn view_i(m: &Mesh, r: &JsonValue) -> JsonValue {
    let mut out = r.clone();
    let keys = key_map(m);
    let (x, y) = match (keys.get(r["x"].as_str().unwrap()), keys.get(r["y"].as_str().unwrap())) {
        (Some(x), Some(y)) => (*x, *y),
        _ => {
            out["res"] = "nokey".into();
            return out;
        }
    };
    let parts = r["parts"].as_bool().unwrap_or(false);
    let got = guarded(|| {
        let (mut s, [wu, wv]): (BasisFnSampler<BF>, _) =
            BasisFnSampler::with(us(&r["ord"][0]), us(&r["ord"][1]), Some(us(&r["n"][0])), Some(us(&r["n"][1])), parts);
        let bp = s.sample_basis_fn(&m.elems[x], if x == y { None } else { Some(&m.elems[y]) });
        let bq = s.sample_basis_fn(&m.elems[y], None);
        let (cc, l2) = (CurlCurl::with_weights(&wu, &wv), L2Inner::with_weights(&wu, &wv));
        let mats = m.elems[x].get_materials();
        arr(r["f"].members().map(|f| {
            let (pd, qd) = (bdir(&f[0]), bdir(&f[3]));
            let (po, qo) = ([us(&f[1]), us(&f[2])], [us(&f[4]), us(&f[5])]);
            if parts {
                let all = |r: IntegralResult, again: IntegralResult| {
                    let (face, edges) = (r.get_face(), r.get_edges());
                    let full = r.full_solution();
                    let split = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| again.unwrap_parts()));
                    let (kind, uf, ue) = match split {
                        Ok((f, e)) => ("parts", f, e),
                        Err(_) => ("full", 0.0, [0.0; 4]),
                    };
                    array![hex(full), hex(face), hexs(&edges), kind, hex(uf), hexs(&ue)]
                };
                let cp = |a: bool| {
                    if a { cc.integrate_by_parts(pd, qd, po, qo, &bp, &bq, mats) } else { cc.integrate_by_parts(qd, pd, qo, po, &bq, &bp, mats) }
                };
                let lp = |a: bool| {
                    if a { l2.integrate_by_parts(pd, qd, po, qo, &bp, &bq, mats) } else { l2.integrate_by_parts(qd, pd, qo, po, &bq, &bp, mats) }
                };
                array![all(cp(true), cp(true)), all(lp(true), lp(true)), all(cp(false), cp(false)), all(lp(false), lp(false))]
            } else {
                array![
                    hex(cc.integrate(pd, qd, po, qo, &bp, &bq, mats).full_solution()),
                    hex(l2.integrate(pd, qd, po, qo, &bp, &bq, mats).full_solution()),
                    hex(cc.integrate(qd, pd, qo, po, &bq, &bp, mats).full_solution()),
                    hex(l2.integrate(qd, pd, qo, po, &bq, &bp, mats).full_solution())
                ]
            }
        }))
    });
    match got {
        Some(v) => {
            out["res"] = "ok".into();
            out["vals"] = v;
        }
        None => out["res"] = "panic".into(),
    }
    out
}

// ------------------------------------------------------------------ assembly with exact integer kernels

/// a basis space that reveals the sampled points: norm(n, p) = the point, tang(n, p) = 1
#[derive(Clone, Debug)]
pub struct Probe {
    pts: Vec<f64>,
}
impl HierCurlBasisFnSpace for Probe {
    fn with(_: usize, points: &[f64], _: bool) -> Self {
        Probe { pts: points.to_vec() }
    }
    fn norm(&self, _: usize, p: usize) -> f64 {
        self.pts[p]
    }
    fn norm_d1(&self, _: usize, _: usize) -> f64 {
        1.0
    }
    fn norm_d2(&self, _: usize, _: usize) -> f64 {
        1.0
    }
    fn tang(&self, _: usize, _: usize) -> f64 {
        1.0
    }
    fn tang_d1(&self, _: usize, _: usize) -> f64 {
        1.0
    }
    fn tang_d2(&self, _: usize, _: usize) -> f64 {
        1.0
    }
}

/// code of one function: a small integer that tells (direction, i, j) apart
pub fn fcode(d: BasisDir, o: [usize; 2]) -> f64 {
    let k = match d {
        BasisDir::U => 0,
        BasisDir::V => 1,
        _ => 2,
    };
    (1 + k + 3 * o[0] + 64 * o[1]) as f64
}

/// grid sizes the integrals were constructed with
static GRIDS: Mutex<Vec<[usize; 2]>> = Mutex::new(Vec::new());

const BROKEN: f64 = 1.0e15;

/// where q's cell lies inside p's cell, read off the sampled points: [centre_u, centre_v, half_u, half_v] * 65536
fn placement<B: HierCurlBasisFnSpace>(p: &HierCurlBasisFn<B>, q: &HierCurlBasisFn<B>, nu: usize, nv: usize) -> Option<[f64; 4]> {
    let at = |b: &HierCurlBasisFn<B>, m: usize, n: usize| {
        [b.f_u([0, 0], [m, n])[0] * b.jac[m][n].u[0], b.f_v([0, 0], [m, n])[1] * b.jac[m][n].v[1]]
    };
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs());
    // the larger function carries the scale of the sampled region
    let big = if p.det_jac[0][0] >= q.det_jac[0][0] { p } else { q };
    let sml = if p.det_jac[0][0] >= q.det_jac[0][0] { q } else { p };
    if p.jac.len() != nu || q.jac.len() != nu || p.jac[0].len() != nv || q.jac[0].len() != nv {
        return None;
    }
    let h = [big.para_scale[0], big.para_scale[1]];
    let mut c = [0.0; 2];
    for m in 0..nu {
        for n in 0..nv {
            let (b, s) = (at(big, m, n), at(sml, m, n));
            for d in 0..2 {
                let off = b[d] - h[d] * s[d];
                if m == 0 && n == 0 {
                    c[d] = off;
                } else if !close(off, c[d]) {
                    return None;
                }
            }
            if !close(big.jac[m][n].u[0] * h[0], sml.jac[m][n].u[0]) || !close(big.jac[m][n].v[1] * h[1], sml.jac[m][n].v[1]) {
                return None;
            }
        }
    }
    if !close(sml.para_scale[0], 1.0) || !close(sml.para_scale[1], 1.0) {
        return None;
    }
    let z = |x: f64| (x * 65536.0).round();
    Some([z(c[0]), z(c[1]), z(h[0]), z(h[1])])
}

macro_rules! kernel {
    ($name:ident, $mat:expr, $mix:expr) => {
        pub struct $name {
            n: [usize; 2],
        }
        impl HierCurlIntegral for $name {
            fn with_weights(u: &[f64], v: &[f64]) -> Self {
                GRIDS.lock().unwrap().push([u.len(), v.len()]);
                Self { n: [u.len(), v.len()] }
            }
            fn integrate<B: HierCurlBasisFnSpace>(
                &self, pd: BasisDir, qd: BasisDir, po: [usize; 2], qo: [usize; 2],
                p: &HierCurlBasisFn<B>, q: &HierCurlBasisFn<B>, mats: &Materials,
            ) -> IntegralResult {
                let mat: fn(&Materials) -> f64 = $mat;
                let mix: fn(f64, f64, [f64; 4], f64) -> f64 = $mix;
                IntegralResult::Full(match placement(p, q, self.n[0], self.n[1]) {
                    Some(w) => mix(fcode(pd, po), fcode(qd, qo), w, (mat(mats) * 8.0).round()),
                    None => BROKEN,
                })
            }
            fn integrate_by_parts<B: HierCurlBasisFnSpace>(
                &self, _: BasisDir, _: BasisDir, _: [usize; 2], _: [usize; 2],
                _: &HierCurlBasisFn<B>, _: &HierCurlBasisFn<B>, _: &Materials,
            ) -> IntegralResult {
                IntegralResult::Full(BROKEN)
            }
        }
    };
}
// symmetric in the two functions; the two kernels differ in every ingredient
kernel!(KernelA, |m| m.mu_rel.re, |a, b, w, mat| a * b + 3.0 * w[0] + 5.0 * w[1] + 7.0 * w[2] + 11.0 * w[3] + 13.0 * mat);
kernel!(KernelB, |m| m.eps_rel.re, |a, b, w, mat| 2.0 * (a + b) + 17.0 * w[0] + 19.0 * w[1] + 23.0 * w[2] + 29.0 * w[3] + 31.0 * mat + 1.0);

pub fn entries(s: &SparseMatrix) -> JsonValue {
    arr(s.iter_upper_tri().map(|([r, c], v)| array![r, c, hex(v)]))
}

pub fn dof_funs(dom: &Domain) -> JsonValue {
    arr(dom.dofs.iter().map(|d| {
        arr(d.get_basis_specs().iter().map(|ad| match dom.get_basis_spec(*ad) {
            Ok(bs) => fun_tuple(&dom.mesh, bs),
            _ => array!["?", "?", 0, 0],
        }))
    }))
}

fn glq(r: &JsonValue) -> Option<[usize; 2]> {
    if r["n"].is_array() && r["n"].len() == 2 {
        Some([us(&r["n"][0]), us(&r["n"][1])])
    } else {
        None
    }
}

fn err_name(e: &GalerkinSamplingError) -> &'static str {
    match e {
        GalerkinSamplingError::WrongContinuityCondition(_, _) => "continuity",
        GalerkinSamplingError::EmptyDOFSet => "empty",
        GalerkinSamplingError::InvalidGLQSettings => "glq",
    }
}

fn domain(m: &Mesh, r: &JsonValue) -> Option<Domain> {
    let cc = match r["cc"].as_str().unwrap_or("HCurl") {
        "HDiv" => ContinuityCondition::HDiv,
        _ => ContinuityCondition::HCurl,
    };
    let mc = m.clone();
    guarded(move || Domain::from_mesh(mc, cc)).map(|mut d| {
        // a domain's continuity condition is a public field
        if let Some("HDiv") = r["setcc"].as_str() {
            d.cc = ContinuityCondition::HDiv;
        }
        d
    })
}

fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    if threads == 0 {
        f()
    } else {
        rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool").install(f)
    }
}

fn gep_out(mut out: JsonValue, dom: &Domain, got: Option<Result<GEP, GalerkinSamplingError>>) -> JsonValue {
    match got {
        Some(Ok(gep)) => {
            out["res"] = "ok".into();
            out["dofs"] = dof_funs(dom);
            out["na"] = gep.a.num_entries().into();
            out["nb"] = gep.b.num_entries().into();
            out["dim"] = array![gep.a.dimension, gep.b.dimension];
            out["A"] = entries(&gep.a);
            out["B"] = entries(&gep.b);
        }
        Some(Err(e)) => {
            out["res"] = err_name(&e).into();
        }
        None => out["res"] = "panic".into(),
    }
    out
}

fn view_g(m: &Mesh, r: &JsonValue) -> JsonValue {
    let mut out = r.clone();
    let dom = match domain(m, r) {
        Some(d) => d,
        None => {
            out["res"] = "nodomain".into();
            return out;
        }
    };
    GRIDS.lock().unwrap().clear();
    let got = guarded(|| in_pool(r["threads"].as_usize().unwrap_or(0), || galerkin_sample_gep_hcurl::<Probe, KernelA, KernelB>(&dom, glq(r))));
    out["nq"] = arr(GRIDS.lock().unwrap().iter().map(|n| array![n[0], n[1]]));
    gep_out(out, &dom, got)
}

fn view_m(m: &Mesh, r: &JsonValue) -> JsonValue {
    let mut out = r.clone();
    let dom = match domain(m, r) {
        Some(d) => d,
        None => {
            out["res"] = "nodomain".into();
            return out;
        }
    };
    let got = guarded(|| in_pool(r["threads"].as_usize().unwrap_or(0), || galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&dom, glq(r))));
    gep_out(out, &dom, got)
}

// ------------------------------------------------------------------ tangential traces

/// for every side of every leaf: the stretches it shares with another leaf, or its boundary stretches, and
/// there the tangential component of every degree of freedom from this leaf's side
fn view_t(c: &Ctx, m: &Mesh, r: &JsonValue) -> JsonValue {
    let mut out = object! {};
    let dom = match domain(m, r) {
        Some(d) => d,
        None => {
            out["res"] = "nodomain".into();
            return out;
        }
    };
    let m = &dom.mesh;
    let samples: Vec<f64> = r["s"].members().map(unhex).collect(); // positions in (0,1) along a stretch
    let [imax, jmax] = m.max_expansion_orders();
    let leaves: Vec<usize> = m.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect();
    let rect = |l: usize| {
        let n = &m.elems[l].nodes;
        let (a, b) = (m.nodes[n[0]].coords, m.nodes[n[3]].coords);
        [a.x, a.y, b.x, b.y]
    };
    let eps = c.unit * 1e-3;
    // tangential traces of all functions over leaf l at parametric points (u, v) of l
    let trace = |l: usize, pts: &[[f64; 2]], dir: usize| -> Vec<(usize, Vec<f64>)> {
        let mut acc: Vec<Vec<f64>> = vec![Vec::new(); dom.dofs.len()];
        for (q, p) in pts.iter().enumerate() {
            for x in m.ancestor_elems(l, true).unwrap() {
                let bf = BF::defined_over(&m.elems[x], Some(&m.elems[l]), [&[p[0]], &[p[1]]], [imax as usize, jmax as usize], false);
                for bs in dom.local_basis_specs(x).unwrap() {
                    let v = match bs.dir {
                        BasisDir::U => bf.f_u([bs.i as usize, bs.j as usize], [0, 0]),
                        BasisDir::V => bf.f_v([bs.i as usize, bs.j as usize], [0, 0]),
                        _ => V2D::from([0.0, 0.0]),
                    };
                    if let Some(d) = bs.dof_id {
                        let a = &mut acc[d];
                        if a.len() <= q {
                            a.resize(pts.len(), 0.0);
                        }
                        a[q] += v[dir];
                    }
                }
            }
        }
        acc.into_iter().enumerate().filter(|(_, a)| a.iter().any(|v| v.abs() > 0.0)).collect()
    };
    let got = guarded(|| {
        let mut list = Vec::new();
        for &l in &leaves {
            let a = rect(l);
            // this leaf lies below / left of the interface: its N (vertical = false) and E sides
            for dir in [0usize, 1] {
                // dir 0: horizontal side (tangent x) at y = a[3]; dir 1: vertical side (tangent y) at x = a[2]
                let (lo, hi, pos) = if dir == 0 { (a[0], a[2], a[3]) } else { (a[1], a[3], a[2]) };
                let mut covered: Vec<(f64, f64)> = Vec::new();
                for &k in &leaves {
                    let b = rect(k);
                    let (blo, bhi, bpos) = if dir == 0 { (b[0], b[2], b[1]) } else { (b[1], b[3], b[0]) };
                    if (bpos - pos).abs() > eps || bhi < lo + eps || blo > hi - eps {
                        continue;
                    }
                    let (s0, s1) = (lo.max(blo), hi.min(bhi));
                    covered.push((s0, s1));
                    let para = |t: f64, lo: f64, hi: f64| (2.0 * t - lo - hi) / (hi - lo);
                    let ts: Vec<f64> = samples.iter().map(|s| s0 + s * (s1 - s0)).collect();
                    let pl: Vec<[f64; 2]> = ts.iter().map(|t| if dir == 0 { [para(*t, lo, hi), 1.0] } else { [1.0, para(*t, lo, hi)] }).collect();
                    let pk: Vec<[f64; 2]> = ts.iter().map(|t| if dir == 0 { [para(*t, blo, bhi), -1.0] } else { [-1.0, para(*t, blo, bhi)] }).collect();
                    let (tl, tk) = (trace(l, &pl, dir), trace(k, &pk, dir));
                    let dump = |t: Vec<(usize, Vec<f64>)>| arr(t.into_iter().map(|(d, v)| object! { "d": d, "v": hexs(&v) }));
                    list.push(object! {
                        "l": elem_key(m, l), "r": elem_key(m, k), "dir": if dir == 0 { "U" } else { "V" },
                        "s": array![scaled(s0, c.unit), scaled(s1, c.unit), scaled(pos, c.unit)],
                        "L": dump(tl), "R": dump(tk),
                    });
                }
            }
            // boundary sides: all four, on stretches where no other leaf touches
            for side in 0..4usize {
                let dir = side / 2;
                let (lo, hi, pos) = match side {
                    0 => (a[0], a[2], a[1]),
                    1 => (a[0], a[2], a[3]),
                    2 => (a[1], a[3], a[0]),
                    _ => (a[1], a[3], a[2]),
                };
                let touched = leaves.iter().any(|&k| {
                    let b = rect(k);
                    let (blo, bhi, bpos) = match side {
                        0 => (b[0], b[2], b[3]),
                        1 => (b[0], b[2], b[1]),
                        2 => (b[1], b[3], b[2]),
                        _ => (b[1], b[3], b[0]),
                    };
                    k != l && (bpos - pos).abs() <= eps && bhi > lo + eps && blo < hi - eps
                });
                if touched {
                    continue;
                }
                let fixed = if side % 2 == 0 { -1.0 } else { 1.0 };
                let pl: Vec<[f64; 2]> = samples.iter().map(|s| if dir == 0 { [2.0 * s - 1.0, fixed] } else { [fixed, 2.0 * s - 1.0] }).collect();
                let tl = trace(l, &pl, dir);
                list.push(object! {
                    "l": elem_key(m, l), "r": "", "dir": if dir == 0 { "U" } else { "V" },
                    "s": array![scaled(lo, c.unit), scaled(hi, c.unit), scaled(pos, c.unit)],
                    "L": arr(tl.into_iter().map(|(d, v)| object! { "d": d, "v": hexs(&v) })), "R": array![],
                });
            }
        }
        list
    });
    match got {
        Some(l) => {
            out["res"] = "ok".into();
            out["n"] = dom.dofs.len().into();
            out["dofs"] = dof_funs(&dom);
            out["at"] = r["s"].clone();
            out["list"] = arr(l);
        }
        None => out["res"] = "panic".into(),
    }
    out
}

// ------------------------------------------------------------------ fields and VTK

fn op1(name: &str) -> fn(&f64) -> f64 {
    match name {
        "abs" => |x| x.abs(),
        "neg" => |x| -x,
        "sq" => |x| x * x,
        "twice" => |x| 2.0 * x,
        "inc" => |x| x + 1.0,
        "tiny" => |x| x / 268435456.0,
        _ => |x| *x,
    }
}
fn op2(name: &str) -> fn(f64, f64) -> f64 {
    match name {
        "add" => |x, y| x + y,
        "sub" => |x, y| x - y,
        "mul" => |x, y| x * y,
        "left" => |x, _| x,
        "right" => |_, y| y,
        _ => |x, y| 2.0 * x - 3.0 * y,
    }
}

/// what the error of a field operation names
fn field_why(e: &UniformFieldError) -> JsonValue {
    let text = e.to_string();
    match e {
        UniformFieldError::MismatchedSolutionSize(want, got) => object! { "v": "size", "n": array![*want, *got], "q": "", "tx": crate::mesh_drv::mentions(&text, &[*want, *got]) },
        UniformFieldError::MissingQuantity(name) => object! { "v": "missing", "n": array![], "q": name.as_str(), "tx": text.contains(name.as_str()) },
    }
}
fn field_outcome<T>(r: Option<Result<T, UniformFieldError>>, ev: &mut JsonValue) -> &'static str {
    if let Some(Err(e)) = &r {
        ev["why"] = field_why(e);
    }
    outcome(r)
}

fn view_f(c: &Ctx, m: &Mesh, r: &JsonValue) -> JsonValue {
    let mut out = r.clone();
    let dom = match domain(m, r) {
        Some(d) => d,
        None => {
            out["res"] = "nodomain".into();
            return out;
        }
    };
    out["res"] = "ok".into();
    out["dofs"] = dof_funs(&dom);
    out["shell"] = arr(dom.mesh.elems.iter().filter(|e| !e.has_children()).map(|e| elem_key(&dom.mesh, e.id).into()));
    let mut ufs = UniformFieldSpace::new(&dom, [us(&r["den"][0]), us(&r["den"][1])]);
    let mut evs = Vec::new();
    for (q, e) in r["do"].members().enumerate() {
        let mut ev = e.clone();
        let res = match e["f"].as_str().unwrap() {
            "xy" => {
                // coefficient of each degree of freedom: by the scenario's list, cyclically, in eighths
                let n = (dom.dofs.len() as i64 + e["extra"].as_i64().unwrap_or(0)).max(0) as usize;
                let cf = &e["c"];
                let sol: Vec<f64> = (0..n).map(|i| cf[i % cf.len()].as_f64().unwrap() / 8.0).collect();
                ev["n"] = n.into();
                let name: &'static str = Box::leak(e["to"].as_str().unwrap().to_string().into_boxed_str());
                match guarded(|| ufs.xy_fields::<HierPoly>(name, sol)) {
                    Some(Ok(names)) => {
                        ev["names"] = array![names[0].clone(), names[1].clone()];
                        "ok"
                    }
                    Some(Err(e)) => {
                        ev["why"] = field_why(&e);
                        "err"
                    }
                    None => "panic",
                }
            }
            "map" => field_outcome(guarded(|| ufs.map_to_quantity(e["a"].as_str().unwrap(), e["to"].as_str().unwrap(), op1(e["op"].as_str().unwrap()))), &mut ev),
            "two" => field_outcome(guarded(|| {
                ufs.expression_2arg([e["a"].as_str().unwrap(), e["b"].as_str().unwrap()], e["to"].as_str().unwrap(), op2(e["op"].as_str().unwrap()))
            }), &mut ev),
            "all" | "some" => {
                let path = format!("{}/out{}.vtk", c.scratch, q);
                let export = |path: &String| {
                    if e["f"] == "all" {
                        guarded(|| ufs.print_all_to_vtk(path))
                    } else {
                        guarded(|| ufs.print_quantities_to_vkt(path, strs(&e["names"])))
                    }
                };
                ev["lost"] = arr(unwritable(&c.scratch).iter().map(|p| outcome(export(p)).into()));
                let res = export(&path);
                if let Some(Err(e)) = &res {
                    ev["why"] = match e.downcast_ref::<UniformFieldError>() {
                        Some(f) => field_why(f),
                        None => object! { "v": "other", "n": array![], "q": "", "tx": true },
                    };
                }
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                ev["file"] = std::path::Path::new(&path).exists().into();
                let _ = std::fs::remove_file(&path);
                ev["head"] = text.lines().next().unwrap_or("").into();
                ev["tok"] = arr(text.lines().skip(2).flat_map(|l| l.split_whitespace()).map(|w| w.into()));
                outcome(res)
            }
            _ => "unknown",
        };
        ev["res"] = res.into();
        evs.push(ev);
    }
    out["do"] = arr(evs);
    out
}
