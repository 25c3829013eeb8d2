//! renders abstract JSON documents, feeds them to Mesh::from_file, records the outcome and the mesh
use crate::mesh_drv::{dump, Ctx};
use crate::util::*;
use fem_2d::prelude::*;
use json::{array, object, JsonValue};

fn number(v: i64, style: i64) -> String {
    let x = v as f64 / 8.0;
    match style {
        2 => format!("{:e}", x),
        3 => format!("{}e-3", v * 125),
        _ => format!("{}", x),
    }
}

fn render(j: &JsonValue, style: i64, index: bool, out: &mut String) {
    let (nl, sp) = if style == 1 { ("\n\t ", " ") } else { ("", "") };
    match j["t"].as_str().unwrap_or("") {
        "n" if j["x"] == "" => {
            // node_ids stay plain integers: how other spellings of an integer are read is left open
            let s = if index { 0 } else { style };
            out.push_str(&number(j["v"].as_i64().unwrap(), s))
        }
        "a" => {
            out.push('[');
            for (i, x) in j["a"].members().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(nl);
                render(x, style, index, out);
            }
            out.push_str(sp);
            out.push(']');
        }
        "o" => {
            out.push('{');
            let n = j["a"].members().count();
            for p in 0..n {
                let i = if style == 2 { n - 1 - p } else { p };
                if p > 0 {
                    out.push(',');
                }
                out.push_str(nl);
                let k = j["k"][i].as_str().unwrap();
                out.push_str(&format!("\"{}\"{}:{}", k, sp, sp));
                render(&j["a"][i], style, k == "node_ids", out);
            }
            out.push_str(nl);
            out.push('}');
        }
        _ => out.push_str(j["x"].as_str().unwrap()),
    }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let scratch = std::env::var("FEMDRV_SCRATCH").unwrap_or_else(|_| ".".into());
    let c = Ctx { unit: 0.125, scratch, num: JsonValue::Null };
    let kind = scn["kind"].as_str().unwrap_or("doc");
    let mut text = String::new();
    render(&scn["doc"], scn["style"].as_i64().unwrap_or(0), false, &mut text);
    let mut path = format!("{}/import.json", c.scratch);
    let _ = std::fs::remove_file(&path);
    match kind {
        "missing" => {}
        "dir" => path = c.scratch.clone(),
        "cut" => {
            // a proper prefix of an object is never JSON
            let n = 1 + (scn["at"].as_usize().unwrap_or(0) % (text.trim_end().len() - 1));
            std::fs::write(&path, &text.as_bytes()[..n]).expect("write");
        }
        "bytes" => std::fs::write(&path, [b'{', 0xff, 0xfe, b'}']).expect("write"),
        _ => std::fs::write(&path, &text).expect("write"),
    }
    let r = guarded(|| Mesh::from_file(&path));
    let _ = std::fs::remove_file(format!("{}/import.json", c.scratch));
    let load = outcome(r.as_ref().map(|x| x.as_ref()));
    let mut evs = JsonValue::new_array();
    let nums = |j: &JsonValue| arr(j["a"].members().map(|x| x["v"].clone()));
    let key = |o: &JsonValue, k: &str| o["k"].members().position(|x| x == k).map_or(JsonValue::Null, |p| o["a"][p].clone());
    let mut cells = array![];
    let mut mats = array![];
    if let Some(Ok(mut m)) = r {
        let views = if kind == "doc" { scn["views"].as_str().unwrap_or("E").to_string() } else { String::new() };
        let mut ev = object! { "op": "init", "res": "ok" };
        dump(&c, &mut m, &views, &mut ev);
        evs.push(ev).unwrap();
        // for the specification to cross-check its reading of the document with the rendered one
        let nodes = key(&scn["doc"], "Nodes");
        for e in key(&scn["doc"], "Elements")["a"].members() {
            mats.push(nums(&key(e, "materials"))).unwrap();
            let ids = key(e, "node_ids");
            let p = |i: usize| nums(&nodes["a"][(ids["a"][i]["v"].as_i64().unwrap_or(0) / 8) as usize]);
            let (a, b) = (p(0), p(3));
            cells.push(array![a[0].clone(), a[1].clone(), b[0].clone(), b[1].clone()]).unwrap();
        }
    }
    object! {
        "sid": scn["sid"].clone(), "src": "file", "kind": kind, "doc": scn["doc"].clone(), "cells": cells, "mats": mats,
        "nodes": array![], "lim": array![0, 1, 0], "maxord": 20, "load": load, "ev": evs,
    }
}
