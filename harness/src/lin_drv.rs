//! sparse matrices, their exports, parallel extension of an eigenproblem, the dense solver
use crate::util::*;
use fem_2d::fem_problem::linalg::nalgebra_solve::{nalgebra_solve_gep, NalgebraGEPError};
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::fem_problem::linalg::{EigenPair, GEP};
use json::{array, object, JsonValue};
use nalgebra::DMatrix;
use rayon::prelude::*;
use std::collections::HashMap;
use std::time::Duration;

fn us(v: &JsonValue) -> usize {
    v.as_usize().unwrap_or_else(|| v.as_str().unwrap().parse().unwrap())
}
fn name(v: &JsonValue) -> String {
    v.as_str().unwrap().to_string()
}
fn entries(v: &JsonValue) -> Vec<([usize; 2], f64)> {
    v.members().map(|e| ([us(&e[0]), us(&e[1])], unhex(&e[2]))).collect()
}
pub fn matrix(dim: usize, v: &JsonValue) -> SparseMatrix {
    let mut m = SparseMatrix::new(dim);
    for (rc, x) in entries(v) {
        m.insert(rc, x);
    }
    m
}
fn read(m: &SparseMatrix) -> JsonValue {
    object! {
        "dim": m.dimension, "n": m.num_entries(),
        "e": arr(m.iter_upper_tri().map(|([r, c], v)| array![r, c, hex(v)])),
    }
}
fn dense(d: &DMatrix<f64>) -> JsonValue {
    object! {
        "sh": array![d.nrows(), d.ncols()],
        "m": arr((0..d.nrows()).map(|r| arr((0..d.ncols()).map(|c| hex(d[(r, c)]).into())))),
    }
}
/// the bytes of a file as hexadecimal words of four bytes each (the last one possibly shorter)
pub fn words(path: &str) -> JsonValue {
    match std::fs::read(path) {
        Ok(b) => arr(b.chunks(4).map(|w| w.iter().map(|x| format!("{:02x}", x)).collect::<String>().into())),
        Err(_) => array!["missing"],
    }
}
fn listing(dir: &str) -> JsonValue {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|f| f.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    v.sort();
    arr(v.into_iter().map(|x| x.into()))
}

#[derive(Default)]
struct Env {
    m: HashMap<String, SparseMatrix>,
    g: HashMap<String, GEP>,
}

fn step(env: &mut Env, op: &JsonValue, dir: &str) -> JsonValue {
    let x = |k: usize| name(&op[k]);
    match op[0].as_str().unwrap() {
        "new" => {
            let m = SparseMatrix::new(us(&op[2]));
            env.m.insert(x(1), m);
            "ok".into()
        }
        "newbig" => {
            SparseMatrix::new(us(&op[1]));
            "ok".into()
        }
        "ins" => {
            env.m.get_mut(&x(1)).unwrap().insert([us(&op[2]), us(&op[3])], unhex(&op[4]));
            "ok".into()
        }
        "grp" => {
            env.m.get_mut(&x(1)).unwrap().insert_group(entries(&op[2]));
            "ok".into()
        }
        "con" => {
            let mut other = env.m.remove(&x(2)).unwrap();
            let r = guarded(|| env.m.get_mut(&x(1)).unwrap().consume_matrix(&mut other));
            env.m.insert(x(2), other);
            if r.is_some() { "ok".into() } else { "panic".into() }
        }
        "cpy" => {
            let c = env.m[&x(2)].clone();
            env.m.insert(x(1), c);
            "ok".into()
        }
        "read" => read(&env.m[&x(1)]),
        "dense" => dense(&DMatrix::from(env.m[&x(1)].clone())),
        "petsc" => {
            let bin = AIJMatrixBinary::from(env.m[&x(1)].clone());
            let path = format!("{}/tmp/{}", dir, x(2));
            let full = op[3] == "full" || op[3] == "mfull";
            let direct = op[3] == "matrix" || op[3] == "mfull"; // the matrix' own method
            if full {
                std::os::unix::fs::symlink("/dev/full", &path).unwrap();
            }
            let m = &env.m[&x(1)];
            let r = outcome(guarded(|| if direct { m.write_to_petsc_binary_format(&path) } else { bin.print_to_petsc_binary_file(&path) }));
            let w = if full { array!["full"] } else { words(&path) };
            std::fs::remove_file(&path).ok();
            object! { "r": r, "w": w }
        }
        // both matrices of an eigenproblem
        "pair" => {
            let gep = GEP { a: env.m[&x(1)].clone(), b: env.m[&x(2)].clone() };
            let [a, b] = gep.clone().to_nalgebra_dense_mats();
            let r = outcome(guarded(|| gep.print_to_petsc_binary_files(dir, x(3))));
            let files = listing(&format!("{}/tmp", dir));
            let p = |s: &str| format!("{}/tmp/{}_{}.dat", dir, x(3), s);
            let out = object! { "a": dense(&a), "b": dense(&b), "r": r, "files": files, "wa": words(&p("a")), "wb": words(&p("b")) };
            std::fs::remove_file(p("a")).ok();
            std::fs::remove_file(p("b")).ok();
            out
        }
        "gnew" => {
            env.g.insert(x(1), GEP::new(us(&op[2])));
            "ok".into()
        }
        // an eigenproblem from two matrices
        "gof" => {
            let g = GEP { a: env.m[&x(2)].clone(), b: env.m[&x(3)].clone() };
            env.g.insert(x(1), g);
            "ok".into()
        }
        "gread" => {
            let g = &env.g[&x(1)];
            array![read(&g.a), read(&g.b)]
        }
        // parallel extension: items, threads, shape of the parallel iterator, delays (us)
        "par" => {
            let g = env.g.get_mut(&x(1)).unwrap();
            let (da, db) = (g.a.dimension, g.b.dimension);
            let items: Vec<(JsonValue, u64)> = op[2].members().zip(op[5].members()).map(|(i, d)| (i.clone(), d.as_u64().unwrap())).collect();
            let build = |(i, d): (JsonValue, u64)| {
                if d > 0 {
                    std::thread::sleep(Duration::from_micros(d));
                }
                [matrix(da, &i[0]), matrix(db, &i[1])]
            };
            let pool = rayon::ThreadPoolBuilder::new().num_threads(us(&op[3])).build().unwrap();
            pool.install(|| match op[4].as_str().unwrap() {
                "vec" => g.par_extend(items.into_iter().map(build).collect::<Vec<_>>()),
                "map" => g.par_extend(items.into_par_iter().map(build)),
                "bridge" => g.par_extend(items.into_iter().par_bridge().map(build)),
                "fine" => g.par_extend(items.into_par_iter().with_max_len(1).map(build)),
                "chunks" => g.par_extend(
                    items.into_par_iter().map(build).chunks(3).flat_map(|c| c.into_par_iter())),
                "halves" => {
                    let mut items = items;
                    let rest = items.split_off(items.len() / 2);
                    g.par_extend(items.into_par_iter().map(build).chain(rest.into_par_iter().map(build)));
                }
                _ => unreachable!(),
            });
            "ok".into()
        }
        _ => unreachable!(),
    }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let dir = format!("{}/{}", std::env::var("FEMDRV_SCRATCH").expect("scratch"), name(&scn["sid"]));
    std::fs::create_dir_all(format!("{}/tmp", dir)).unwrap();
    let mut env = Env::default();
    let mut out = Vec::new();
    for op in scn["ops"].members() {
        let v = guarded(|| step(&mut env, op, &dir)).unwrap_or("panic".into());
        let r = if v.is_string() { v.clone() } else { "ok".into() };
        out.push(object! { "op": op.clone(), "r": r, "v": v });
    }
    std::fs::remove_dir_all(&dir).ok();
    object! { "sid": scn["sid"].clone(), "log": JsonValue::Array(out) }
}

/// dense solver: {dim, a, b, t}
pub fn run_eig(scn: &JsonValue) -> JsonValue {
    let ev = arr(scn["ev"].members().map(|e| {
        let mut x = e.clone();
        x["out"] = match e["f"].as_str().unwrap() {
            "solve" => {
                let (na, nb) = (us(&e["n"][0]), us(&e["n"][1]));
                let gep = GEP { a: matrix(na, &e["a"]), b: matrix(nb, &e["b"]) };
                match guarded(|| nalgebra_solve_gep(gep, unhex(&e["t"]))) {
                    None => object! { "r": "panic", "v": "", "x": array![] },
                    Some(Ok(p)) => object! { "r": "ok", "v": hex(p.value), "x": hexs(&p.vector) },
                    Some(Err(NalgebraGEPError::FailedToInvertB)) => object! { "r": "invert", "v": "", "x": array![] },
                    Some(Err(NalgebraGEPError::SpuriouslyConverged)) => object! { "r": "spurious", "v": "", "x": array![] },
                    Some(Err(NalgebraGEPError::ProblemTooLarge)) => object! { "r": "large", "v": "", "x": array![] },
                }
            }
            "norm" => {
                let p = EigenPair { value: unhex(&e["v"]), vector: e["x"].members().map(unhex).collect() };
                let n = guarded(|| p.normalized_eigenvector());
                match n {
                    Some(n) => object! { "r": "ok", "v": hex(p.value), "x": hexs(&n), "o": hexs(&p.vector) },
                    None => object! { "r": "panic", "v": "", "x": array![], "o": array![] },
                }
            }
            _ => unreachable!(),
        };
        x
    }));
    object! { "sid": scn["sid"].clone(), "ev": ev }
}
