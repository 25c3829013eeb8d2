//! quadrature rules and one-dimensional shape functions
use crate::util::*;
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::fem_problem::integration::glq::*;
use fem_2d::prelude::*;
use json::{object, JsonValue};

fn nums(v: &JsonValue) -> Vec<f64> {
    v.members().map(|x| x.as_f64().unwrap()).collect()
}

fn eval(e: &JsonValue) -> JsonValue {
    match e["f"].as_str().unwrap() {
        "rule" => {
            let n = e["n"].as_usize().unwrap();
            let (p, w) = gauss_quadrature_points(n, e["ep"].as_bool().unwrap());
            let sc = arr(e["ranges"].members().map(|r| {
                let (a, b) = (unhex(&r[0]), unhex(&r[1]));
                let (k, q) = scale_gauss_quad_points(&p, a, b);
                object! { "k": hex(k), "p": hexs(&q) }
            }));
            object! { "p": hexs(&p), "w": hexs(&w), "sc": sc }
        }
        "sum" => {
            let (u, v) = (nums(&e["u"]), nums(&e["v"]));
            let g: Vec<Vec<f64>> = e["g"].members().map(nums).collect();
            let f = |m: usize, n: usize| g[m][n];
            object! {
                "full": hex(real_gauss_quad(&u, &v, f)),
                "inner": hex(real_gauss_quad_inner(&u, &v, f)),
                "edge": arr((0..4).map(|i| hex(real_gauss_quad_edge(&u, &v, i, f)).into())),
            }
        }
        "sumx" => {
            // real rules, real integrand x^a y^b over a rectangle
            let (nu, nv) = (e["n"][0].as_usize().unwrap(), e["n"][1].as_usize().unwrap());
            let ep = e["ep"].as_bool().unwrap();
            let (pu, wu) = gauss_quadrature_points(nu, ep);
            let (pv, wv) = gauss_quadrature_points(nv, ep);
            let r = &e["r"];
            let (ku, xu) = scale_gauss_quad_points(&pu, unhex(&r[0]), unhex(&r[1]));
            let (kv, xv) = scale_gauss_quad_points(&pv, unhex(&r[2]), unhex(&r[3]));
            let (a, b) = (e["d"][0].as_i32().unwrap(), e["d"][1].as_i32().unwrap());
            let f = |m: usize, n: usize| xu[m].powi(a) * xv[n].powi(b);
            if ep {
                object! {
                    "area": hex(ku * kv * real_gauss_quad_inner(&wu, &wv, f)),
                    "edge": arr((0..4).map(|i| hex((if i < 2 { ku } else { kv }) * real_gauss_quad_edge(&wu, &wv, i, f)).into())),
                }
            } else {
                object! { "area": hex(ku * kv * real_gauss_quad(&wu, &wv, f)), "edge": json::JsonValue::new_array() }
            }
        }
        "shape" => {
            let nmax = e["n"].as_usize().unwrap();
            let pts: Vec<f64> = e["p"].members().map(unhex).collect();
            let d2 = e["d2"].as_bool().unwrap();
            let s = HierPoly::with(nmax, &pts, d2);
            let tab = |f: &dyn Fn(usize, usize) -> f64| {
                arr((0..=nmax).map(|i| arr((0..pts.len()).map(|p| hex(f(i, p)).into()))))
            };
            let mut o = object! {
                "n0": tab(&|i, p| s.norm(i, p)),
                "n1": tab(&|i, p| s.norm_d1(i, p)),
                "t0": tab(&|i, p| s.tang(i, p)),
                "t1": tab(&|i, p| s.tang_d1(i, p)),
            };
            if d2 {
                o["n2"] = tab(&|i, p| s.norm_d2(i, p));
                o["t2"] = tab(&|i, p| s.tang_d2(i, p));
            }
            o
        }
        _ => panic!("unknown evaluation"),
    }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let mut out = scn.clone();
    for e in out["ev"].members_mut() {
        let r = guarded(|| eval(e));
        match r {
            Some(o) => {
                e["res"] = "ok".into();
                e["out"] = o;
            }
            None => {
                e["res"] = "panic".into();
            }
        }
    }
    out
}
