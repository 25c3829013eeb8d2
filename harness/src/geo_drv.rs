//! evaluates the geometric value types
use crate::util::*;
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point, M2D, V2D};
use json::{array, object, JsonValue};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn xy(p: Point) -> JsonValue {
    array![hex(p.x), hex(p.y)]
}
fn v2(v: V2D) -> JsonValue {
    array![hex(v.x()), hex(v.y())]
}
fn m2(m: M2D) -> JsonValue {
    array![hex(m.u[0]), hex(m.u[1]), hex(m.v[0]), hex(m.v[1])]
}
fn ord(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    }
}
fn digest(p: &Point) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}
fn g2(v: &JsonValue) -> [f64; 2] {
    [unhex(&v[0]), unhex(&v[1])]
}
fn g4(v: &JsonValue) -> M2D {
    M2D::from([unhex(&v[0]), unhex(&v[1])], [unhex(&v[2]), unhex(&v[3])])
}

fn eval(e: &JsonValue) -> JsonValue {
    let x = unhex(&e["x"]);
    match e["f"].as_str().unwrap() {
        "pt" => {
            let (a, b) = (g2(&e["ph"]), g2(&e["qh"]));
            let (p, q) = (Point::new(a[0], a[1]), Point::from(b));
            let dir = guarded(|| p.orientation_with(&q));
            object! {
                "eq": p == q, "hash": digest(&p) == digest(&q), "xo": ord(p.x_order(&q)), "yo": ord(p.y_order(&q)),
                "dir": match dir { None => "panic", Some(ParaDir::U) => "U", Some(ParaDir::V) => "V" },
                "dist": hex(p.dist(&q)), "mid": xy(Point::between(&p, &q)), "sum": xy(p + q), "half": xy(p / x),
                "same": p == Point::from(a) && q == Point::new(b[0], b[1]) && Point::default() == Point::new(0.0, 0.0),
            }
        }
        "v2" => {
            let (a, b) = (V2D::from(g2(&e["a"])), V2D::from(g2(&e["b"])));
            object! {
                "add": v2(a + b), "mul": v2(a * b), "mulr": v2(a * &b), "div": v2(a / b), "scl": v2(a * x), "sdiv": v2(a / x),
                "dot": array![hex(a.dot_with(&b)), hex(V2D::dot(a, b))], "xy": v2(a), "ix": array![hex(a[0]), hex(a[1])],
            }
        }
        _ => {
            let (a, b, v) = (g4(&e["a"]), g4(&e["b"]), V2D::from(g2(&e["v"])));
            object! {
                "det": hex(a.det()), "inv": m2(a.inverse()), "tr": m2(a.transpose()), "mul": m2(a * b), "app": v2(a * v), "sdiv": m2(a / x),
            }
        }
    }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let ev = arr(scn["ev"].members().map(|e| {
        let mut x = e.clone();
        let out = guarded(|| eval(e));
        x["res"] = if out.is_some() { "ok" } else { "panic" }.into();
        x["out"] = out.unwrap_or(JsonValue::new_object());
        x
    }));
    object! { "sid": scn["sid"].clone(), "ev": ev }
}
