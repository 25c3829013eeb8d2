use crate::util::*;
use fem_2d::fem_domain::domain::mesh::h_refinement::HRefError;
use fem_2d::fem_domain::domain::mesh::p_refinement::PRefError;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::mesh::{MeshAccessError, MAX_POLYNOMIAL_ORDER, MIN_EDGE_LENGTH};
use fem_2d::prelude::*;
use json::{array, object, JsonValue};
use std::cell::RefCell;
use std::collections::HashMap;

const PARA: f64 = 16777216.0;
pub const MAT_UNIT: f64 = 0.125;

pub struct Ctx {
    pub unit: f64,
    pub scratch: String,
    pub num: JsonValue,
}

pub fn elem_key(mesh: &Mesh, id: usize) -> String {
    match mesh.elems.get(id) {
        None => format!("?{}", id),
        Some(e) => {
            let st = e.loc_stack();
            let mut s = match st.first() {
                Some((r, _)) => format!("r{}", r),
                None => format!("r{}", id),
            };
            for (_, loc) in st {
                s.push_str(&format!(".{:?}", loc));
            }
            s
        }
    }
}

pub fn key_map(mesh: &Mesh) -> HashMap<String, usize> {
    (0..mesh.elems.len()).map(|i| (elem_key(mesh, i), i)).collect()
}

fn resolve(keys: &HashMap<String, usize>, n: usize, k: &str) -> Option<usize> {
    // keys that do not (any more) name a cell become ids that do not exist, a different one for each key
    let lost = || usize::MAX - 2 - (k.bytes().fold(5381usize, |h, b| h.wrapping_mul(1_000_003) ^ b as usize) >> 2);
    let keyed = || Some(keys.get(k).copied().unwrap_or_else(lost));
    if k == "!max" {
        Some(usize::MAX)
    } else if let Some(off) = k.strip_prefix('!') {
        Some(n + off.parse::<usize>().unwrap_or(0))
    } else {
        keyed()
    }
}

pub fn href(tok: &str) -> HRef {
    match tok {
        "T" => HRef::T,
        "U" => HRef::U(None),
        "V" => HRef::V(None),
        "U0" => HRef::U(Some(0)),
        "U1" => HRef::U(Some(1)),
        "V0" => HRef::V(Some(0)),
        "V1" => HRef::V(Some(1)),
        "U2" => HRef::U(Some(2)),
        "V2" => HRef::V(Some(2)),
        "U9" => HRef::U(Some(usize::MAX)),
        _ => panic!("unknown token {}", tok),
    }
}

pub fn href_tok(h: HRef) -> String {
    match h {
        HRef::T => "T".into(),
        HRef::U(None) => "U".into(),
        HRef::V(None) => "V".into(),
        HRef::U(Some(i)) => format!("U{}", i),
        HRef::V(Some(i)) => format!("V{}", i),
    }
}

fn dirname(d: ParaDir) -> &'static str {
    match d {
        ParaDir::U => "U",
        ParaDir::V => "V",
    }
}

impl Ctx {
    fn sc(&self, v: f64) -> i64 {
        scaled(v, self.unit)
    }
    fn node(&self, mesh: &Mesh, id: usize) -> JsonValue {
        match mesh.nodes.get(id) {
            Some(n) => array![self.sc(n.coords.x), self.sc(n.coords.y)],
            None => array![ODD, ODD],
        }
    }
    pub fn seg(&self, mesh: &Mesh, id: usize) -> JsonValue {
        match mesh.edges.get(id) {
            Some(e) => match (mesh.nodes.get(e.nodes[0]), mesh.nodes.get(e.nodes[1])) {
                (Some(a), Some(b)) => array![
                    self.sc(a.coords.x),
                    self.sc(a.coords.y),
                    self.sc(b.coords.x),
                    self.sc(b.coords.y)
                ],
                _ => array![ODD, ODD, ODD, ODD],
            },
            None => array![ODD, ODD, ODD, ODD],
        }
    }
    pub fn pt(&self, p: &fem_2d::fem_domain::domain::mesh::space::Point) -> [i64; 2] {
        [self.sc(p.x), self.sc(p.y)]
    }
}

fn para(r: [[f64; 2]; 2]) -> JsonValue {
    // <<u_min, v_min, u_max, v_max>>
    array![
        scaled(r[0][0] * PARA, 1.0),
        scaled(r[1][0] * PARA, 1.0),
        scaled(r[0][1] * PARA, 1.0),
        scaled(r[1][1] * PARA, 1.0)
    ]
}

fn mat(v: f64) -> i64 {
    scaled(v, MAT_UNIT)
}

// ------------------------------------------------------------------ views

fn view_e(c: &Ctx, m: &Mesh) -> JsonValue {
    arr(m.elems.iter().enumerate().map(|(i, e)| {
        let anc: Vec<usize> = e.loc_stack().iter().map(|(a, _)| *a).collect();
        let mats = e.get_materials();
        object! {
            "k": elem_key(m, i),
            "id": e.id == i,
            "par": e.parent_id().map_or(String::new(), |p| elem_key(m, p)),
            "anc": arr(anc.iter().map(|a| elem_key(m, *a).into())),
            "ch": arr(e.child_ids().map_or(Vec::new(), |ch| ch.to_vec()).iter().map(|x| elem_key(m, *x).into())),
            "has": e.has_children(),
            "pts": arr((0..4).map(|n| c.node(m, e.nodes[n]))),
            "ed": arr((0..4).map(|n| c.seg(m, e.edges[n]))),
            "lu": e.h_levels.u,
            "lv": e.h_levels.v,
            "root": e.element.id,
            "mat": array![mat(mats.eps_rel.re), mat(mats.eps_rel.im), mat(mats.mu_rel.re), mat(mats.mu_rel.im)],
            "pr": para(e.parametric_range()),
            "rel": arr(anc.iter().map(|a| guarded(|| para(e.relative_parametric_range(*a))).unwrap_or(array![ODD]))),
        }
    }))
}

fn keys_of(m: &Mesh, list: &JsonValue) -> JsonValue {
    arr(list.members().map(|x| elem_key(m, x.as_usize().unwrap_or(usize::MAX)).into()))
}

fn view_n(c: &Ctx, m: &Mesh) -> JsonValue {
    arr(m.nodes.iter().enumerate().map(|(i, n)| {
        let j = n.to_json();
        object! {
            "p": c.node(m, i),
            "id": n.id == i,
            "b": n.boundary,
            "q": arr(j["elems"].members().map(|l| keys_of(m, l))),
        }
    }))
}

fn view_s(c: &Ctx, m: &Mesh) -> JsonValue {
    arr(m.edges.iter().enumerate().map(|(i, e)| {
        let j = e.to_json();
        let side = |s: usize| arr(j["elems"][s].members().map(|x| elem_key(m, x["cell_id"].as_usize().unwrap_or(usize::MAX)).into()));
        object! {
            "e": c.seg(m, i),
            "id": e.id == i,
            "b": e.boundary,
            "dir": dirname(e.dir),
            "len": c.sc(e.length),
            "par": e.parent_id().map_or(array![], |p| c.seg(m, p)),
            "ch": arr(e.child_ids().map_or(Vec::new(), |ch| ch.to_vec()).iter().map(|x| c.seg(m, *x))),
            "has": e.has_children(),
            "mid": e.child_node_id().map_or(array![], |n| c.node(m, n)),
            "s1": side(0),
            "s2": side(1),
            "one": e.is_boundary(),
        }
    }))
}

fn view_a(c: &Ctx, m: &Mesh) -> JsonValue {
    let mut act = Vec::new();
    let mut bad = 0;
    for (i, e) in m.edges.iter().enumerate() {
        match e.active_elem_pair() {
            Some([a, b]) => {
                let other = |x: usize| match guarded(|| e.other_active_elem_id(x)) {
                    Some(Some(y)) => elem_key(m, y),
                    Some(None) => "none".to_string(),
                    None => "panic".to_string(),
                };
                act.push(object! {
                    "e": c.seg(m, i),
                    "a": array![elem_key(m, a), elem_key(m, b)],
                    "o": array![other(a), other(b)],
                });
                // a cell that is not a member has no partner here
                let n = m.elems.len();
                for x in (0..n + 2).step_by(n / 10 + 1).chain([a + 1, b + 1, a.wrapping_sub(1)]) {
                    if x != a && x != b && matches!(guarded(|| e.other_active_elem_id(x)), Some(Some(_))) {
                        bad += 1;
                    }
                }
            }
            None => {
                if !matches!(guarded(|| e.other_active_elem_id(0)), Some(None)) {
                    bad += 1;
                }
            }
        }
    }
    object! { "act": JsonValue::Array(act), "bad": bad }
}

fn view_p(m: &Mesh) -> JsonValue {
    let mx = m.max_expansion_orders();
    object! {
        "o": arr(m.elems.iter().enumerate().map(|(i, e)| object! {
            "k": elem_key(m, i), "ni": e.poly_orders.ni, "nj": e.poly_orders.nj,
            "w": match guarded(|| m.elem_p_refinement_window(i)) {
                Some(Ok(w)) => array![w[0][0], w[0][1], w[1][0], w[1][1]],
                _ => array![ODD, ODD, ODD, ODD],
            }
        })),
        "max": array![mx[0], mx[1]],
    }
}

pub fn fun_tuple(m: &Mesh, bs: &BasisSpec) -> JsonValue {
    array![elem_key(m, bs.elem_id), format!("{}", bs.dir), bs.i, bs.j]
}

fn view_d(m: &Mesh) -> JsonValue {
    let mc = m.clone();
    let dom = match guarded(move || Domain::from_mesh(mc, ContinuityCondition::HCurl)) {
        Some(d) => d,
        None => return object! { "res": "panic" },
    };
    let dofs = arr(dom.dofs.iter().enumerate().map(|(i, d)| {
        object! {
            "id": d.id == i,
            "f": arr(d.get_basis_specs().iter().map(|ad| match guarded(|| dom.get_basis_spec(*ad).ok().cloned()) {
                Some(Some(bs)) => {
                    let good = bs.dof_id == Some(d.id) && bs.elem_id == ad.elem_id && bs.elem_idx == Some(ad.elem_idx);
                    array![elem_key(&dom.mesh, bs.elem_id), format!("{}", bs.dir), bs.i, bs.j, good]
                }
                _ => array!["?", "?", 0, 0, false],
            })),
        }
    }));
    object! {
        "res": "ok",
        "dofs": dofs,
        "n": arr(dom.basis_specs.iter().enumerate().map(|(i, l)| object!{ "k": elem_key(&dom.mesh, i), "n": l.len() })),
    }
}

fn view_q(c: &Ctx, m: &Mesh) -> JsonValue {
    let keys = |r: Option<Result<Vec<usize>, fem_2d::fem_domain::domain::mesh::MeshAccessError>>| match r {
        Some(Ok(v)) => arr(v.iter().map(|x| elem_key(m, *x).into())),
        Some(Err(_)) => array!["!err"],
        None => array!["!panic"],
    };
    let mc = m.clone();
    let dom = guarded(move || Domain::from_mesh(mc, ContinuityCondition::HCurl));
    let elems = arr((0..m.elems.len()).map(|i| {
        let pts = match guarded(|| m.elem_points(i).map(|p| p.map(|q| c.pt(q)))) {
            Some(Ok(p)) => arr(p.iter().map(|q| array![q[0], q[1]])),
            _ => array![array![ODD, ODD]],
        };
        let diag = match guarded(|| m.elem_diag_points(i).map(|p| p.map(|q| c.pt(q)))) {
            Some(Ok(p)) => arr(p.iter().map(|q| array![q[0], q[1]])),
            _ => array![array![ODD, ODD]],
        };
        object! {
            "k": elem_key(m, i),
            "pts": pts,
            "diag": diag,
            "d0": keys(guarded(|| m.descendant_elems(i, false))),
            "d1": keys(guarded(|| m.descendant_elems(i, true))),
            "a0": keys(guarded(|| m.ancestor_elems(i, false))),
            "a1": keys(guarded(|| m.ancestor_elems(i, true))),
            "ref": match guarded(|| m.elem_is_h_refineable(i)) { Some(Ok(b)) => if b {"yes"} else {"no"}, Some(Err(_)) => "err", None => "panic" },
            "w": match guarded(|| m.elem_p_refinement_window(i)) {
                Some(Ok(w)) => array![w[0][0], w[0][1], w[1][0], w[1][1]],
                _ => array![ODD, ODD, ODD, ODD],
            },
        }
    }));
    let edges = arr((0..m.edges.len()).map(|i| {
        let pts = match guarded(|| m.edge_points(i).map(|p| p.map(|q| c.pt(q)))) {
            Some(Ok(p)) => arr(p.iter().map(|q| array![q[0], q[1]])),
            _ => array![array![ODD, ODD]],
        };
        let segs = |r: Option<Result<Vec<usize>, fem_2d::fem_domain::domain::mesh::MeshAccessError>>| match r {
            Some(Ok(v)) => arr(v.iter().map(|x| c.seg(m, *x))),
            _ => array![array![ODD, ODD, ODD, ODD]],
        };
        object! {
            "e": c.seg(m, i),
            "pts": pts,
            "d0": segs(guarded(|| m.descendant_edges(i, false))),
            "d1": segs(guarded(|| m.descendant_edges(i, true))),
        }
    }));
    let (ne, ns) = (m.elems.len(), m.edges.len());
    let mut bad: Vec<JsonValue> = Vec::new();
    for off in [0usize, 1, 7, 1 << 8, 1 << 16, 1 << 31, (1 << 32) - ne.max(1), 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX] {
        let be = if off >= 1 << 32 && off < usize::MAX { off } else { ne.saturating_add(off) };
        let bs = if off >= 1 << 32 && off < usize::MAX { off } else { ns.saturating_add(off) };
        let mut push = |name: &str, r: &str| bad.push(object! { "q": format!("{}+{}", name, off), "r": r });
        push("elem_points", outcome(guarded(|| m.elem_points(be).map(|_| ()))));
        push("elem_diag_points", outcome(guarded(|| m.elem_diag_points(be).map(|_| ()))));
        push("descendant_elems", outcome(guarded(|| m.descendant_elems(be, false).map(|_| ()))));
        push("descendant_elems_incl", outcome(guarded(|| m.descendant_elems(be, true).map(|_| ()))));
        push("ancestor_elems", outcome(guarded(|| m.ancestor_elems(be, false).map(|_| ()))));
        push("ancestor_elems_incl", outcome(guarded(|| m.ancestor_elems(be, true).map(|_| ()))));
        push("elem_is_h_refineable", outcome(guarded(|| m.elem_is_h_refineable(be).map(|_| ()))));
        push("elem_p_refinement_window", outcome(guarded(|| m.elem_p_refinement_window(be).map(|_| ()))));
        push("edge_points", outcome(guarded(|| m.edge_points(bs).map(|_| ()))));
        push("descendant_edges", outcome(guarded(|| m.descendant_edges(bs, false).map(|_| ()))));
        push("descendant_edges_incl", outcome(guarded(|| m.descendant_edges(bs, true).map(|_| ()))));
        if let Some(dom) = &dom {
            push("local_basis_specs", outcome(guarded(|| dom.local_basis_specs(be).map(|_| ()))));
            push("descendant_basis_specs", outcome(guarded(|| dom.descendant_basis_specs(be).map(|_| ()))));
            push("ancestor_basis_specs", outcome(guarded(|| dom.ancestor_basis_specs(be).map(|_| ()))));
            push("get_basis_spec(elem)", outcome(guarded(|| dom.get_basis_spec(BSAddress::new(be, 0)).map(|_| ()))));
            for e in 0..ne.min(6) {
                let n = dom.basis_specs.get(e).map_or(0, |l| l.len());
                push(&format!("get_basis_spec({},len)", e), outcome(guarded(|| dom.get_basis_spec(BSAddress::new(e, if off >= 1 << 32 && off < usize::MAX { off } else { n.saturating_add(off) })).map(|_| ()))));
            }
        }
    }
    let specs = match &dom {
        None => array![],
        Some(dom) => arr((0..dom.mesh.elems.len()).map(|i| {
            let funs = |l: &Vec<BasisSpec>| arr(l.iter().map(|b| fun_tuple(&dom.mesh, b)));
            let groups = |r: Option<Result<Vec<(usize, &Vec<BasisSpec>)>, fem_2d::fem_domain::domain::mesh::MeshAccessError>>| match r {
                Some(Ok(v)) => arr(v.iter().map(|(id, l)| object! { "k": elem_key(&dom.mesh, *id), "n": l.len(), "own": l.iter().all(|b| b.elem_id == *id) })),
                _ => array![object!{ "k": "!err", "n": 0, "own": false }],
            };
            object! {
                "k": elem_key(&dom.mesh, i),
                "loc": match guarded(|| dom.local_basis_specs(i)) { Some(Ok(l)) => funs(l), _ => array![array!["!err", "U", 0, 0]] },
                "desc": groups(guarded(|| dom.descendant_basis_specs(i))),
                "anc": groups(guarded(|| dom.ancestor_basis_specs(i))),
                "get": match guarded(|| {
                    let n = dom.basis_specs[i].len();
                    (0..n).map(|x| dom.get_basis_spec(BSAddress::new(i, x)).map(|b| b.elem_id == i && b.elem_idx == Some(x)).unwrap_or(false)).all(|b| b)
                }) { Some(b) => b, None => false },
            }
        })),
    };
    object! { "el": elems, "ed": edges, "bad": JsonValue::Array(bad), "dom": if dom.is_some() {"ok"} else {"panic"}, "sp": specs }
}

fn view_j(c: &Ctx, m: &mut Mesh) -> JsonValue {
    let path = format!("{}/export.json", c.scratch);
    let _ = std::fs::remove_file(&path);
    let lost: Vec<JsonValue> = unwritable(&c.scratch).iter().map(|p| outcome(guarded(|| m.export_to_json(p))).into()).collect();
    let r = outcome(guarded(|| m.export_to_json(&path)));
    if r != "ok" {
        return object! { "res": r };
    }
    let text = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let doc = match json::parse(&text) {
        Ok(d) => d,
        Err(_) => return object! { "res": "notjson" },
    };
    let num = |v: &JsonValue| v.as_usize().unwrap_or(usize::MAX);
    let ek = |v: &JsonValue| elem_key(m, num(v));
    let fl = |v: &JsonValue| v.as_f64().map_or(ODD, |x| c.sc(x));
    let top: Vec<JsonValue> = doc.entries().map(|(k, _)| k.into()).collect();
    let names = |v: &JsonValue| {
        let mut k: Vec<String> = v.entries().map(|(k, _)| k.to_string()).collect();
        k.sort();
        k.join(",")
    };
    object! {
        "res": "ok",
        "lost": JsonValue::Array(lost),
        "top": JsonValue::Array(top),
        "ids": arr(["Elements", "Elems", "Nodes", "Edges"].iter().map(|s| doc[*s].members().enumerate().all(|(i, x)| num(&x["id"]) == i).into())),
        "elements": arr(doc["Elements"].members().map(|x| object! {
            "id": num(&x["id"]),
            "mat": arr(["eps_rel", "eps_rel_im", "mu_rel", "mu_rel_im"].iter().map(|s| x[*s].as_f64().map_or(ODD, mat).into())),
        })),
        "elems": arr(doc["Elems"].members().enumerate().map(|(i, x)| object! {
            "k": elem_key(m, i),
            "root": num(&x["element_id"]),
            "par": if x["parent"].is_null() { String::new() } else { ek(&x["parent"]) },
            "active": x["active"].as_bool().unwrap_or(false),
            "pts": arr(x["nodes"].members().map(|n| c.node(m, num(n)))),
            "ed": arr(x["edges"].members().map(|n| c.seg(m, num(n)))),
            "ni": x["expansion"]["u"].as_i64().unwrap_or(ODD),
            "nj": x["expansion"]["v"].as_i64().unwrap_or(ODD),
            "lu": x["h_levels"]["u"].as_i64().unwrap_or(ODD),
            "lv": x["h_levels"]["v"].as_i64().unwrap_or(ODD),
            "ch": arr(x["children"].members().map(|n| ek(n).into())),
            "f": names(x),
        })),
        "nodes": arr(doc["Nodes"].members().map(|x| object! {
            "p": array![fl(&x["point"]["x"]), fl(&x["point"]["y"])],
            "b": x["boundary"].as_bool().map_or("?", |b| if b {"yes"} else {"no"}),
            "q": arr(x["elems"].members().map(|l| keys_of(m, l))),
        })),
        "edges": arr(doc["Edges"].members().map(|x| {
            let side = |s: usize| arr(x["elems"][s].members().map(|y| object! {
                "k": ek(&y["cell_id"]),
                "l": arr(y["level_key"].members().map(|z| z.as_i64().unwrap_or(ODD).into())),
            }));
            object! {
                "pts": arr(x["nodes"].members().map(|n| c.node(m, num(n)))),
                "b": x["boundary"].as_bool().map_or("?", |b| if b {"yes"} else {"no"}),
                "dir": x["direction"].as_str().unwrap_or("?"),
                "par": if x["parent"].is_null() { array![] } else { c.seg(m, num(&x["parent"])) },
                "ch": arr(x["children"].members().map(|n| c.seg(m, num(n)))),
                "s1": side(0),
                "s2": side(1),
                "ns": x["elems"].members().count(),
                "a": arr(x["active_elems"].members().map(|n| ek(n).into())),
            }
        })),
    }
}

pub fn dump(c: &Ctx, m: &mut Mesh, views: &str, ev: &mut JsonValue) {
    for v in views.chars() {
        let r = match v {
            'E' => guarded(|| view_e(c, m)),
            'N' => guarded(|| view_n(c, m)),
            'S' => guarded(|| view_s(c, m)),
            'A' => guarded(|| view_a(c, m)),
            'P' => guarded(|| view_p(m)),
            'X' => guarded(|| view_x(m)),
            'D' => guarded(|| view_d(m)),
            'Q' => guarded(|| view_q(c, m)),
            'J' => guarded(|| view_j(c, m)),
            #[cfg(feature = "num")]
            l if l.is_ascii_lowercase() => guarded(|| crate::num_drv::view(l, c, m)),
            _ => None,
        };
        match r {
            Some(x) => ev[v.to_string()] = x,
            None => ev["broken"] = format!("view {} panicked", v).into(),
        }
    }
    ev["views"] = arr(views.chars().map(|v| v.to_string().into()));
}

// ------------------------------------------------------------------ sessions

/// write the mesh file described by `scn` and return its path
pub fn write_mesh_file(scn: &JsonValue, unit: f64, path: &str) {
    // cells: [[x0,y0,x1,y1],..]; nodes: [[x,y],..] in file order
    let nodes: Vec<[i64; 2]> = scn["nodes"].members().map(|p| [p[0].as_i64().unwrap(), p[1].as_i64().unwrap()]).collect();
    let find = |x: i64, y: i64| nodes.iter().position(|p| *p == [x, y]).expect("node of cell");
    let elements = arr(scn["cells"].members().enumerate().map(|(i, r)| {
        let g = |j: usize| r[j].as_i64().unwrap();
        let ms = if scn["mats"].is_array() {
            arr(scn["mats"][i].members().map(|v| (v.as_f64().unwrap() * MAT_UNIT).into()))
        } else {
            array![1.0, 0.0, 1.0, 0.0]
        };
        object! { "materials": ms, "node_ids": array![find(g(0), g(1)), find(g(2), g(1)), find(g(0), g(3)), find(g(2), g(3))] }
    }));
    let doc = object! {
        "Elements": elements,
        "Nodes": arr(nodes.iter().map(|p| array![p[0] as f64 * unit, p[1] as f64 * unit])),
    };
    std::fs::write(path, doc.dump()).expect("write mesh file");
}

pub fn load_mesh(scn: &JsonValue, unit: f64, scratch: &str) -> (Option<Mesh>, &'static str) {
    if scn["src"] == "unit" {
        let m = guarded(Mesh::unit);
        let r = if m.is_some() { "ok" } else { "panic" };
        (m, r)
    } else if scn["src"] == "blank" {
        let m = guarded(|| match scn["via"].as_str() {
            Some("domain") => Domain::blank(ContinuityCondition::HCurl).mesh,
            _ => Mesh::blank(),
        });
        let r = if m.is_some() { "ok" } else { "panic" };
        (m, r)
    } else {
        let path = format!("{}/mesh.json", scratch);
        write_mesh_file(scn, unit, &path);
        let r = guarded(|| Mesh::from_file(&path));
        let _ = std::fs::remove_file(&path);
        match r {
            Some(Ok(m)) => (Some(m), "ok"),
            Some(Err(_)) => (None, "err"),
            None => (None, "panic"),
        }
    }
}

thread_local! {
    // what the error of the last rejected request names
    static WHY: RefCell<JsonValue> = RefCell::new(JsonValue::Null);
    // length of the scenario's coordinate unit
    static UNIT: RefCell<f64> = RefCell::new(1.0);
}

fn note(why: JsonValue) {
    WHY.with(|w| *w.borrow_mut() = why);
}

/// the text of an error mentions these numbers
pub fn mentions(text: &str, ids: &[usize]) -> bool {
    let runs: Vec<&str> = text.split(|c: char| !c.is_ascii_digit()).collect();
    ids.iter().all(|id| runs.contains(&id.to_string().as_str()))
}

/// error of an h-refinement request: its kind, the items of the request it names, the Edge it names
fn h_outcome<T>(r: Option<Result<T, HRefError>>, ids: &[usize], seg: impl Fn(usize) -> JsonValue) -> &'static str {
    let at = |id: &usize| arr(ids.iter().enumerate().filter(|(_, x)| *x == id).map(|(i, _)| (i + 1).into()));
    if let Some(Err(e)) = &r {
        let text = e.to_string();
        let (v, at, edge, ids) = match e {
            HRefError::ElemDoesNotExist(id) => ("missing".to_string(), at(id), array![], vec![*id]),
            HRefError::ElemNotRefineable(id) | HRefError::ElemHasChildren(id) => ("ineligible".to_string(), at(id), array![], vec![*id]),
            HRefError::DuplicateElemIds => ("twice".to_string(), array![], array![], vec![]),
            HRefError::BisectionIdxExceeded => ("child".to_string(), array![], array![], vec![]),
            HRefError::MinEdgeLength(edge) => ("short".to_string(), array![], seg(*edge), vec![*edge]),
            other => (format!("{:?}", other), array![], array![], vec![]),
        };
        note(object! { "v": v, "at": at, "e": edge, "tx": mentions(&text, &ids) });
    }
    outcome(r)
}

fn p_outcome<T>(r: Option<Result<T, PRefError>>, ids: &[usize]) -> &'static str {
    let at = |id: &usize| arr(ids.iter().enumerate().filter(|(_, x)| *x == id).map(|(i, _)| (i + 1).into()));
    if let Some(Err(e)) = &r {
        let text = e.to_string();
        let (v, at, o, ids) = match e {
            PRefError::ElemDoesNotExist(id) => ("missing".to_string(), at(id), array![], vec![*id]),
            PRefError::RefinementOutOfBounds(id) => ("window".to_string(), at(id), array![], vec![*id]),
            PRefError::DuplicateElemIds => ("twice".to_string(), array![], array![], vec![]),
            PRefError::InvalidExpansionOrders(i, j) => ("orders".to_string(), array![], array![*i, *j], vec![*i as usize, *j as usize]),
            other => (format!("{:?}", other), array![], array![], vec![]),
        };
        note(object! { "v": v, "at": at, "o": o, "tx": mentions(&text, &ids) });
    }
    outcome(r)
}

/// the kind of error a lookup of something that does not exist answers, and whether it names the id asked for
fn lost<T>(r: Option<Result<T, MeshAccessError>>, id: usize) -> JsonValue {
    let text = match &r {
        Some(Err(e)) => e.to_string(),
        _ => String::new(),
    };
    match r {
        Some(Ok(_)) => array!["ok", false],
        Some(Err(MeshAccessError::ElemDoesNotExist(x))) => array!["elem", x == id && mentions(&text, &[id])],
        Some(Err(MeshAccessError::EdgeDoesNotExist(x))) => array!["edge", x == id && mentions(&text, &[id])],
        Some(Err(MeshAccessError::NodeDoesNotExist(x))) => array!["node", x == id && mentions(&text, &[id])],
        None => array!["panic", false],
    }
}

/// answers of all lookups for ids that do not exist
fn view_x(m: &Mesh) -> JsonValue {
    let mc = m.clone();
    let dom = guarded(move || Domain::from_mesh(mc, ContinuityCondition::HCurl));
    let mut el = Vec::new();
    let mut ed = Vec::new();
    for off in [0usize, 1, 5, 1 << 40, usize::MAX] {
        let be = m.elems.len().saturating_add(off);
        let bs = m.edges.len().saturating_add(off);
        el.push(lost(guarded(|| m.elem_points(be).map(|_| ())), be));
        el.push(lost(guarded(|| m.elem_diag_points(be).map(|_| ())), be));
        el.push(lost(guarded(|| m.descendant_elems(be, false)), be));
        el.push(lost(guarded(|| m.descendant_elems(be, true)), be));
        el.push(lost(guarded(|| m.ancestor_elems(be, false)), be));
        el.push(lost(guarded(|| m.ancestor_elems(be, true)), be));
        el.push(lost(guarded(|| m.elem_is_h_refineable(be)), be));
        el.push(lost(guarded(|| m.elem_p_refinement_window(be)), be));
        ed.push(lost(guarded(|| m.edge_points(bs).map(|_| ())), bs));
        ed.push(lost(guarded(|| m.descendant_edges(bs, false)), bs));
        ed.push(lost(guarded(|| m.descendant_edges(bs, true)), bs));
        if let Some(d) = &dom {
            el.push(lost(guarded(|| d.local_basis_specs(be).map(|_| ())), be));
            el.push(lost(guarded(|| d.descendant_basis_specs(be).map(|_| ())), be));
            el.push(lost(guarded(|| d.ancestor_basis_specs(be).map(|_| ())), be));
        }
    }
    object! { "el": arr(el), "ed": arr(ed) }
}

pub fn apply_op(m: &mut Mesh, op: &JsonValue) -> &'static str {
    note(JsonValue::Null);
    let keys = key_map(m);
    let n = m.elems.len();
    let name = op["op"].as_str().unwrap_or("");
    let lists = if op["items"].is_array() { &op["items"] } else { &op["sel"] };
    let mut items: Vec<(usize, &JsonValue)> = Vec::new();
    for it in lists.members() {
        match resolve(&keys, n, it[0].as_str().unwrap_or("")) {
            Some(id) => items.push((id, it)),
            None => return "nokey",
        }
    }
    let mut ids = Vec::new();
    for k in op["ids"].members() {
        match resolve(&keys, n, k.as_str().unwrap_or("")) {
            Some(id) => ids.push(id),
            None => return "nokey",
        }
    }
    let at: Vec<usize> = items.iter().map(|x| x.0).collect();
    let unit = UNIT.with(|u| *u.borrow());
    let before: Vec<JsonValue> = if name.starts_with('h') { let c = Ctx { unit, scratch: String::new(), num: JsonValue::Null }; (0..m.edges.len()).map(|e| c.seg(m, e)).collect() } else { Vec::new() };
    let segs = |e: usize| before.get(e).cloned().unwrap_or(array!["gone"]);
    let tok = op["tok"].as_str().unwrap_or("");
    let d8 = |v: &JsonValue| v.as_i64().unwrap() as i8;
    let u8v = |v: &JsonValue| v.as_i64().unwrap() as u8;
    match name {
        "init" | "look" => "ok",
        "hx" => {
            let v = items.iter().map(|(id, it)| (*id, href(it[1].as_str().unwrap()))).collect();
            h_outcome(guarded(|| m.execute_h_refinements(v)), &at, segs)
        }
        "hl" => { let at = ids.clone(); h_outcome(guarded(|| m.h_refine_elems(ids, href(tok))), &at, segs) },
        "hg" => outcome(guarded(|| { m.global_h_refinement(href(tok)); Ok::<(), ()>(()) })),
        "hf" => {
            let sel: HashMap<usize, HRef> = items.iter().map(|(id, it)| (*id, href(it[1].as_str().unwrap()))).collect();
            outcome(guarded(|| { m.h_refine_with_filter(|e| sel.get(&e.id).copied()); Ok::<(), ()>(()) }))
        }
        "px" => {
            let v = items.iter().map(|(id, it)| (*id, PRef::from(d8(&it[1]), d8(&it[2])))).collect();
            p_outcome(guarded(|| m.execute_p_refinements(v)), &at)
        }
        "pl" => {
            let p = PRef::from(d8(&op["d"][0]), d8(&op["d"][1]));
            { let at = ids.clone(); p_outcome(guarded(|| m.p_refine_elems(ids, p)), &at) }
        }
        "pg" => {
            let p = PRef::from(d8(&op["d"][0]), d8(&op["d"][1]));
            outcome(guarded(|| { m.global_p_refinement(p); Ok::<(), ()>(()) }))
        }
        "pf" => {
            let sel: HashMap<usize, PRef> = items.iter().map(|(id, it)| (*id, PRef::from(d8(&it[1]), d8(&it[2])))).collect();
            outcome(guarded(|| { m.p_refine_with_filter(|e| sel.get(&e.id).copied()); Ok::<(), ()>(()) }))
        }
        "pb" => {
            let sel: HashMap<usize, PRef> = items.iter().map(|(id, it)| (*id, PRef::from(d8(&it[1]), d8(&it[2])))).collect();
            p_outcome(guarded(|| m.p_refine_with_filter_bounded(|e, _| sel.get(&e.id).copied())), &at)
        }
        "sx" => {
            let mut v = Vec::new();
            for (id, it) in &items {
                match guarded(|| Orders::try_new(u8v(&it[1]), u8v(&it[2]))) {
                    Some(Ok(o)) => v.push((*id, o)),
                    Some(Err(e)) => return p_outcome::<()>(Some(Err(e)), &[]),
                    None => return "panic",
                }
            }
            p_outcome(guarded(|| m.set_expansion_orders(v)), &at)
        }
        "sl" | "sg" | "sf" => {
            if name == "sf" {
                let mut sel = HashMap::new();
                for (id, it) in items.iter().filter(|x| x.0 < n) {
                    match guarded(|| Orders::try_new(u8v(&it[1]), u8v(&it[2]))) {
                        Some(Ok(o)) => { sel.insert(*id, o); }
                        Some(Err(e)) => return p_outcome::<()>(Some(Err(e)), &[]),
                        None => return "panic",
                    }
                }
                return outcome(guarded(|| { m.set_expansions_with_filter(|e| sel.get(&e.id).copied()); Ok::<(), ()>(()) }));
            }
            let o = match guarded(|| Orders::try_new(u8v(&op["o"][0]), u8v(&op["o"][1]))) {
                Some(Ok(o)) => o,
                Some(Err(e)) => return p_outcome::<()>(Some(Err(e)), &[]),
                None => return "panic",
            };
            if name == "sl" {
                { let at = ids.clone(); p_outcome(guarded(|| m.set_expansion_on_elems(ids, o)), &at) }
            } else {
                outcome(guarded(|| { m.set_global_expansion_orders(o); Ok::<(), ()>(()) }))
            }
        }
        _ => "unknown",
    }
}

pub fn clampi(v: f64) -> i64 {
    if v > 1.9e9 { 1_900_000_000 } else { v as i64 }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let unit: f64 = scn["unit"].as_str().and_then(|u| u.parse().ok()).expect("unit");
    let scratch = std::env::var("FEMDRV_SCRATCH").unwrap_or_else(|_| ".".into());
    UNIT.with(|u| *u.borrow_mut() = unit);
    let c = Ctx { unit, scratch, num: scn["num"].clone() };
    let dump_all = scn["dump"] != "last";
    let views = scn["views"].as_str().unwrap_or("E").to_string();
    let q = MIN_EDGE_LENGTH / unit;
    let mut out = object! {
        "sid": scn["sid"].clone(),
        "src": scn["src"].clone(),
        "cells": scn["cells"].clone(),
        "mats": if scn["mats"].is_array() && scn["src"] != "unit" { scn["mats"].clone() } else { arr(scn["cells"].members().map(|_| array![8, 0, 8, 0])) },
        "nodes": if scn["nodes"].is_array() { scn["nodes"].clone() } else { array![] },
        "lim": array![clampi(q.floor()), clampi((2.0 * q).ceil()), clampi((2.0 * q).floor())],
        "maxord": MAX_POLYNOMIAL_ORDER,
        "ux": hex(unit),
    };
    let (mesh, load) = load_mesh(scn, unit, &c.scratch);
    out["load"] = load.into();
    let mut evs = JsonValue::new_array();
    if let Some(mut m) = mesh {
        let nops = scn["ops"].members().count();
        let mut ev0 = object! { "op": "init", "res": "ok" };
        if dump_all || nops == 0 {
            dump(&c, &mut m, &views, &mut ev0);
        } else {
            ev0["views"] = array![];
        }
        evs.push(ev0).unwrap();
        let mut other: Option<Mesh> = None;
        for (i, op) in scn["ops"].members().enumerate() {
            let mut ev = op.clone();
            let res = match op["op"].as_str().unwrap_or("") {
                "fork" => {
                    other = Some(m.clone());
                    "ok"
                }
                "swap" => match other.take() {
                    Some(x) => {
                        other = Some(std::mem::replace(&mut m, x));
                        "ok"
                    }
                    None => "nofork",
                },
                _ => apply_op(&mut m, op),
            };
            ev["res"] = res.into();
            let why = WHY.with(|w| w.replace(JsonValue::Null));
            if !why.is_null() {
                ev["why"] = why;
            }
            let vs = match op["v"].as_str() {
                Some(s) => s.to_string(),
                None if dump_all || i + 1 == nops => views.clone(),
                None => String::new(),
            };
            dump(&c, &mut m, &vs, &mut ev);
            ev.remove("v");
            evs.push(ev).unwrap();
        }
    }
    out["ev"] = evs;
    out
}
