//! evaluates the refinement value types directly
use crate::mesh_drv::href;
use crate::util::*;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::h_refinement::{HLevels, HRefLoc};
use fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use json::{array, object, JsonValue};

pub fn tok(h: HRef) -> String {
    match h {
        HRef::T => "T".into(),
        HRef::U(None) => "U".into(),
        HRef::V(None) => "V".into(),
        HRef::U(Some(i)) => format!("U{}", i),
        HRef::V(Some(i)) => format!("V{}", i),
    }
}

fn loc(s: &str) -> HRefLoc {
    match s {
        "SW" => HRefLoc::SW,
        "SE" => HRefLoc::SE,
        "NW" => HRefLoc::NW,
        "NE" => HRefLoc::NE,
        "W" => HRefLoc::W,
        "E" => HRefLoc::E,
        "S" => HRefLoc::S,
        _ => HRefLoc::N,
    }
}

fn i(v: &JsonValue) -> i64 {
    v.as_i64().unwrap()
}
fn pd(s: &JsonValue) -> ParaDir {
    if s == "U" { ParaDir::U } else { ParaDir::V }
}
fn a2<T: Into<i64> + Copy>(a: [T; 2]) -> JsonValue {
    array![a[0].into(), a[1].into()]
}

fn psum(e: &JsonValue) -> PRef {
    let mut it = e["p"].members().map(|p| PRef::from(i(&p[0]) as i8, i(&p[1]) as i8));
    let mut a = it.next().unwrap();
    for p in it {
        a += p;
    }
    a
}

fn eval(e: &JsonValue) -> JsonValue {
    let orders = |k: &str| PolyOrders { ni: i(&e[k][0]) as u8, nj: i(&e[k][1]) as u8 };
    let pair = |k: &str| [i(&e[k][0]) as u8, i(&e[k][1]) as u8];
    let w = || [[i(&e["w"][0]) as i8, i(&e["w"][1]) as i8], [i(&e["w"][2]) as i8, i(&e["w"][3]) as i8]];
    match e["f"].as_str().unwrap() {
        "hadd" => {
            let mut it = e["t"].members().map(|t| href(t.as_str().unwrap()));
            let mut a = it.next().unwrap();
            for t in it {
                a += t;
            }
            tok(a).into()
        }
        "hctor" => {
            let x = i(&e["x"]) as u8;
            let r = if e["k"] == "U" { HRef::u_extened(x) } else { HRef::v_extened(x) };
            r.map_or("err".into(), |h| tok(h).into())
        }
        "prefine" => {
            let mut o = orders("o");
            let r = outcome(guarded(|| o.refine(psum(e))));
            object! { "r": r, "o": array![o.ni, o.nj] }
        }
        "psum" => a2(psum(e).as_array()),
        "pclamp" => a2(psum(e).constrained_to(w()).as_array()),
        "pin" => psum(e).falls_within(w()).into(),
        "pdir" => a2(PRef::on_dir(pd(&e["d"]), i(&e["x"]) as i8).as_array()),
        "oset" => {
            let mut o = orders("o");
            let r = outcome(guarded(|| o.set(pair("n"))));
            object! { "r": r, "o": array![o.ni, o.nj] }
        }
        "onew" => {
            let [a, b] = pair("n");
            let t = guarded(|| Orders::try_new(a, b));
            let v = match &t { Some(Ok(o)) => o.to_array(), _ => [0, 0] };
            let n = guarded(|| Orders::new(a, b));
            object! { "try": outcome(t), "new": if n.is_some() {"ok"} else {"panic"}, "o": array![v[0], v[1]] }
        }
        "omax" => {
            let m = orders("o").max_with(pair("n"));
            array![m[0], m[1]]
        }
        "oarr" => {
            let a = orders("o").as_array();
            array![a[0], a[1]]
        }
        "perm" => {
            let d = match e["d"].as_str().unwrap() { "U" => BasisDir::U, "V" => BasisDir::V, _ => BasisDir::W };
            arr(orders("o").permutations(d).map(|p| array![p[0], p[1]]))
        }
        "lev" => {
            let l = HLevels { u: i(&e["l"][0]) as u8, v: i(&e["l"][1]) as u8 }.refined(href(e["t"][0].as_str().unwrap()));
            array![l.u, l.v]
        }
        "rank" => {
            let l = HLevels { u: i(&e["l"][0]) as u8, v: i(&e["l"][1]) as u8 };
            let r = l.edge_ranking(pd(&e["d"]));
            array![r[0], r[1]]
        }
        "sub" => {
            let g = |k: usize| i(&e["r"][k]) as f64;
            let r = loc(e["loc"].as_str().unwrap()).sub_range([[g(0), g(2)], [g(1), g(3)]]);
            array![scaled(r[0][0], 1.0), scaled(r[1][0], 1.0), scaled(r[0][1], 1.0), scaled(r[1][1], 1.0)]
        }
        "idx" => loc(e["loc"].as_str().unwrap()).index().into(),
        _ => JsonValue::Null,
    }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let ev = arr(scn["ev"].members().map(|e| {
        let mut x = e.clone();
        x["out"] = guarded(|| eval(e)).unwrap_or("panic".into());
        x
    }));
    object! { "sid": scn["sid"].clone(), "ev": ev }
}
