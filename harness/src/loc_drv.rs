//! basis-function specifications: the component they are filed under, and which of them match
use crate::mesh_drv::{key_map, Ctx};
use crate::util::*;
use fem_2d::fem_domain::domain::dof::basis_spec::{BSAddress, BasisDir, BasisLoc, BasisSpec};
use fem_2d::fem_domain::domain::dof::DoF;
use fem_2d::prelude::*;
use json::{array, object, JsonValue};

fn dir(v: &JsonValue) -> BasisDir {
    match v.as_str().unwrap() {
        "U" => BasisDir::U,
        "V" => BasisDir::V,
        _ => BasisDir::W,
    }
}
fn orders(v: &JsonValue) -> [u8; 2] {
    [v[1].as_u8().unwrap(), v[2].as_u8().unwrap()]
}

fn place(c: &Ctx, m: &Mesh, b: &BasisSpec) -> JsonValue {
    match b.loc {
        BasisLoc::ElemBs => array!["elem", 0, array![]],
        BasisLoc::EdgeBs(i, id) => {
            let at = if id < m.edges.len() { c.seg(m, id) } else { array!["!"] };
            array!["edge", i, at]
        }
        BasisLoc::NodeBs(i, id) => match m.nodes.get(id) {
            Some(n) => {
                let p = c.pt(&n.coords);
                array!["node", i, array![p[0], p[1]]]
            }
            None => array!["node", i, array!["!"]],
        },
    }
}

fn yes_no(r: Option<bool>) -> &'static str {
    match r {
        Some(true) => "yes",
        Some(false) => "no",
        None => "panic",
    }
}

pub fn view_l(c: &Ctx, m: &Mesh, reqs: &JsonValue) -> JsonValue {
    let keys = key_map(m);
    let rs = arr(reqs.members().map(|r| {
        let mut out = r.clone();
        let (x, y) = match (keys.get(r["x"].as_str().unwrap()), keys.get(r["y"].as_str().unwrap())) {
            (Some(x), Some(y)) => (&m.elems[*x], &m.elems[*y]),
            _ => {
                out["res"] = "nokey".into();
                return out;
            }
        };
        out["res"] = "ok".into();
        for q in 0..r["q"].len() {
            let (p, o) = (&r["q"][q]["p"], &r["q"][q]["o"]);
            let made = guarded(|| {
                let f = BasisSpec::new(3 + q, orders(p), dir(&p[0]), x, ContinuityCondition::HCurl);
                let g = BasisSpec::new(90 + q, orders(o), dir(&o[0]), y, ContinuityCondition::HCurl);
                (f, g)
            });
            match made {
                None => out["res"] = "panic".into(),
                Some((f, g)) => {
                    let e = &mut out["q"][q];
                    e["at"] = array![place(c, m, &f), place(c, m, &g)];
                    e["m"] = array![yes_no(guarded(|| f.matches_with_edge(&g))), yes_no(guarded(|| g.matches_with_edge(&f)))];
                    e["eq"] = array![f == g, g == f];
                    e["own"] = (f.id == 3 + q && g.id == 90 + q && f.elem_id == x.id && g.elem_id == y.id && [f.i, f.j] == orders(p)
                        && [g.i, g.j] == orders(o) && f.dir == dir(&p[0]) && g.dir == dir(&o[0]) && f.dof_id.is_none() && f.elem_idx.is_none()
                        && g.dof_id.is_none() && g.elem_idx.is_none())
                    .into();
                }
            }
        }
        out
    }));
    // the same number of addresses, given with rising, falling, mixed, equal and very large element numbers
    let dof = arr((0..42usize).map(|w| {
        let n = w % 7;
        let given: Vec<[usize; 2]> = (0..n)
            .map(|k| match w / 7 {
                0 => [7 * k + 2, (5 * k + 1) % 4],
                1 => [7 * (n - k) + 2, (5 * k + 1) % 4],
                2 => [(5 * k + 3) % 7, 9 - k],
                3 => [4, (3 * k + 2) % 7],
                4 => [usize::MAX - (5 * k + 2) % 7, (1usize << 33) + k],
                _ => [(k / 2) % 2, 3],
            })
            .collect();
        let made = guarded(|| {
            let d = DoF::new(40 + n, given.iter().map(|g| BSAddress::new(g[0], g[1])).collect());
            d.id == 40 + n && d.get_basis_specs().iter().map(|a| [a.elem_id, a.elem_idx]).collect::<Vec<_>>() == given
        });
        match made {
            Some(true) => "same",
            Some(false) => "other",
            None => "panic",
        }
        .into()
    }));
    let set = match m.elems.first() {
        None => array!["ok", "panic"],
        Some(e) => {
            let mut b = BasisSpec::new(0, [0, 2], BasisDir::U, e, ContinuityCondition::HCurl);
            let a = guarded(|| { b.set_dof_and_idx(11, 6); b.clone() });
            let first = match &a {
                Some(b) if b.dof_id == Some(11) && b.elem_idx == Some(6) && b.integration_data() == ([0, 2], BasisDir::U, 11) => "ok",
                _ => "wrong",
            };
            let again = match a { Some(mut b) => guarded(|| b.set_dof_and_idx(12, 6)).map_or("panic", |_| "ok"), None => "panic" };
            array![first, again]
        }
    };
    object! { "r": rs, "dof": dof, "set": set }
}
