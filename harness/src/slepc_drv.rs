//! calls of the external solver, with this binary standing in for `mpiexec` (see `stand_in`)
use crate::lin_drv::{matrix, words};
use crate::util::*;
use fem_2d::fem_problem::linalg::slepc_solve::{slepc_solve_gep, SlepcGEPError};
use fem_2d::fem_problem::linalg::GEP;
use json::{array, object, JsonValue};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::Duration;

#[repr(C)]
struct Limit {
    soft: u64,
    hard: u64,
}
#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn getrlimit(what: i32, l: *mut Limit) -> i32;
    fn setrlimit(what: i32, l: *const Limit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn raise(sig: i32) -> i32;
    fn syscall(n: i64, a: i64, b: *mut Timespec) -> i64;
}

/// a clock that can be stopped: several calls can begin in the same instant
static STOPPED: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub extern "C" fn clock_gettime(clock: i32, out: *mut Timespec) -> i32 {
    if clock == 0 && STOPPED.load(Ordering::Relaxed) {
        unsafe { *out = Timespec { sec: 1_700_000_000, nsec: 123_456_789 } };
        return 0;
    }
    const GETTIME: i64 = if cfg!(target_arch = "x86_64") { 228 } else { 113 };
    unsafe { syscall(GETTIME, clock as i64, out) as i32 }
}

fn us(v: &JsonValue) -> usize {
    v.as_usize().unwrap()
}
fn bytes(v: &JsonValue) -> Vec<u8> {
    let s: String = v.members().map(|w| w.as_str().unwrap()).collect();
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}
fn names(dir: &Path, prefix: &str) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|f| f.file_name().to_string_lossy().to_string()).filter(|n| n.starts_with(prefix)).collect())
        .unwrap_or_default();
    v.sort();
    v
}

/// the name of a file of a run whose prefix differs a little from `fp`
fn similar(fp: &str, k: usize) -> String {
    let mut c: Vec<char> = fp.chars().collect();
    let n = c.len();
    let other = |x: char| if x == '7' { '3' } else { '7' };
    if n < 2 {
        return "another_a.dat".into();
    }
    match k {
        0 => c[n - 1] = other(c[n - 1]),
        1 => c[n / 2] = other(c[n / 2]),
        2 => c[0] = 'Q',
        3 => c.truncate(n - 1),
        _ => c[n - 2] = other(c[n - 2]),
    }
    format!("{}_{}.dat", c.iter().collect::<String>(), ["a", "evec"][k % 2])
}

// ------------------------------------------------------------------ the stand-in for mpiexec

/// notes how it was called and what it found, then does what the plan for this target says
pub fn stand_in(args: &[String]) -> ! {
    let plan = json::parse(&std::fs::read_to_string(std::env::var("FEMDRV_PLAN").expect("plan")).expect("plan")).expect("plan");
    let rec_dir = std::env::var("FEMDRV_REC").expect("rec");
    let after = |flag: &str| args.iter().position(|a| a == flag).and_then(|k| args.get(k + 1)).cloned();
    let te = after("-te").unwrap_or_default();
    let fp = after("-fp").unwrap_or_default();
    let t: f64 = te.parse().unwrap_or(f64::NAN);
    let calls: Vec<&JsonValue> = plan.members().collect();
    let k = (0..calls.len()).min_by(|a, b| {
        let d = |k: usize| (unhex(&calls[k]["t"]) - t).abs();
        d(*a).partial_cmp(&d(*b)).unwrap_or(std::cmp::Ordering::Equal)
    });
    let (k, c) = match k {
        Some(k) if t.is_finite() => (k, calls[k]),
        _ => {
            std::fs::write(format!("{}/lost-{}", rec_dir, std::process::id()), args.join(" ")).ok();
            std::process::exit(99);
        }
    };
    let pause = |v: &JsonValue| std::thread::sleep(Duration::from_millis(v.as_u64().unwrap_or(0)));
    pause(&c["wait"][0]);
    let tmp = Path::new("tmp");
    // files of other runs whose prefixes differ little from this one's
    let near: Vec<String> = c["near"].members().map(|k| similar(&fp, us(k))).filter(|n| !n.contains(&fp) && !tmp.join(n).exists()).collect();
    for n in &near {
        std::fs::write(tmp.join(n), b"another run").ok();
    }
    let rec = object! {
        "near": arr(near.iter().map(|n| n.clone().into())),
        "args": arr(args[1..].iter().map(|a| a.clone().into())),
        "te": te, "fp": fp.clone(), "cwd": Path::new("solve_gep").exists(),
        "files": arr(names(tmp, &fp).into_iter().map(|n| n.strip_prefix(&fp).unwrap().to_string().into())),
        "wa": words(&format!("tmp/{}_a.dat", fp)), "wb": words(&format!("tmp/{}_b.dat", fp)),
    };
    let p = format!("{}/call-{}-{}", rec_dir, k, std::process::id());
    std::fs::write(&p, rec.dump()).expect("record");
    for f in c["files"].members() {
        std::fs::write(tmp.join(format!("{}{}", fp, f[0].as_str().unwrap())), bytes(&f[1])).ok();
    }
    for f in c["gone"].members() {
        std::fs::remove_file(tmp.join(format!("{}{}", fp, f.as_str().unwrap()))).ok();
    }
    if c["rmtmp"] == true {
        std::fs::remove_dir_all(tmp).ok();
    }
    pause(&c["wait"][1]);
    if c["signal"] != 0 {
        let s = c["signal"].as_i32().unwrap();
        unsafe {
            setrlimit(4, &Limit { soft: 0, hard: 0 }); // no core file
            signal(s, 0);
            raise(s);
        }
    }
    std::process::exit(c["exit"].as_i32().unwrap());
}

// ------------------------------------------------------------------ sessions

fn snapshot(root: &Path, at: &Path, out: &mut Vec<[String; 2]>) {
    for f in std::fs::read_dir(at).into_iter().flatten().flatten() {
        let p = f.path();
        let name = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
        if p.is_dir() {
            out.push([name, "directory".into()]);
            snapshot(root, &p, out);
        } else {
            let mut h = DefaultHasher::new();
            std::fs::read(&p).unwrap_or_default().hash(&mut h);
            out.push([name, format!("{:016x}", h.finish())]);
        }
    }
}
fn shot(root: &Path) -> JsonValue {
    let mut v = Vec::new();
    snapshot(root, root, &mut v);
    v.sort();
    arr(v.into_iter().map(|[a, b]| array![a, b]))
}

fn call(c: &JsonValue) -> JsonValue {
    let gep = GEP { a: matrix(us(&c["dim"][0]), &c["a"]), b: matrix(us(&c["dim"][1]), &c["b"]) };
    let t = unhex(&c["t"]);
    match guarded(|| slepc_solve_gep(gep, t)) {
        None => object! { "r": "panic", "v": "", "x": array![] },
        Some(Ok(p)) => object! { "r": "ok", "v": hex(p.value), "x": hexs(&p.vector) },
        Some(Err(e)) => {
            let r = match e.downcast_ref::<SlepcGEPError>() {
                Some(e) => format!("{:?}", e),
                None if e.is::<std::io::Error>() => "io".into(),
                None => "other".into(),
            };
            object! { "r": r, "v": "", "x": array![] }
        }
    }
}

pub fn run_session(scn: &JsonValue) -> JsonValue {
    let sid = scn["sid"].as_str().unwrap();
    let scratch = std::env::var("FEMDRV_SCRATCH").expect("scratch");
    let root = Path::new(&scratch).join(sid);
    let (bin, rec) = (root.join("bin"), root.join("rec"));
    let gep = root.join(scn["dir"].as_str().unwrap());
    for d in [&bin, &rec] {
        std::fs::create_dir_all(d).unwrap();
    }
    let env = scn["env"].as_str().unwrap();
    if env != "nodir" {
        std::fs::create_dir_all(&gep).unwrap();
        std::fs::write(gep.join("solve_gep"), b"stand-in").unwrap();
        if env == "tmpfile" {
            std::fs::write(gep.join("tmp"), b"not a directory").unwrap();
        } else if env != "notmp" {
            std::fs::create_dir_all(gep.join("tmp")).unwrap();
            for d in scn["decoys"].members() {
                let p = gep.join(d.as_str().unwrap());
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, d.as_str().unwrap()).unwrap();
            }
        }
    }
    let launcher = bin.join("mpiexec");
    match scn["launch"].as_str().unwrap() {
        "ok" => std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &launcher).unwrap(),
        "noexec" => {
            std::fs::write(&launcher, b"#!/bin/false\n").unwrap();
            std::fs::set_permissions(&launcher, std::fs::Permissions::from_mode(0o644)).unwrap();
        }
        "garbage" => {
            std::fs::write(&launcher, b"\x7fELF but not really").unwrap();
            std::fs::set_permissions(&launcher, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        _ => (),
    }
    let plan = root.join("plan.json");
    std::fs::write(&plan, scn["calls"].dump()).unwrap();
    let path = std::env::var_os("PATH").unwrap_or_default();
    std::env::set_var("PATH", &bin);
    std::env::set_var("FEMDRV_PLAN", &plan);
    std::env::set_var("FEMDRV_REC", &rec);
    match env {
        "unset" => std::env::remove_var("GEP_SOLVE_DIR"),
        "bytes" => std::env::set_var("GEP_SOLVE_DIR", std::ffi::OsString::from_vec(vec![b'/', 0xff, 0xfe])),
        "relative" => std::env::set_var("GEP_SOLVE_DIR", Path::new(sid).join(scn["dir"].as_str().unwrap())),
        "slash" => std::env::set_var("GEP_SOLVE_DIR", format!("{}/", gep.display())),
        _ => std::env::set_var("GEP_SOLVE_DIR", &gep),
    }
    let before = shot(&gep);
    let calls: Vec<&JsonValue> = scn["calls"].members().collect();
    let results: Vec<Mutex<JsonValue>> = calls.iter().map(|_| Mutex::new(JsonValue::Null)).collect();
    let mut old = Limit { soft: 0, hard: 0 };
    let limit = us(&scn["limit"]) as u64;
    if limit > 0 {
        unsafe {
            signal(25, 1);
            getrlimit(1, &mut old);
            setrlimit(1, &Limit { soft: limit, hard: old.hard });
        }
    }
    STOPPED.store(scn["clock"] == "stopped", Ordering::Relaxed);
    for round in scn["rounds"].members() {
        let ks: Vec<usize> = round.members().map(us).collect();
        let gate = Barrier::new(ks.len());
        let (cr, rr, recr, tmp, gt) = (&calls, &results, &rec, gep.join("tmp"), &gate);
        std::thread::scope(|s| {
            for &k in &ks {
                let tmp = tmp.clone();
                s.spawn(move || {
                    gt.wait();
                    let mut out = call(cr[k]);
                    // what the stand-in noted for this call, and what is left of the files of this call
                    let mut recs: Vec<JsonValue> = Vec::new();
                    for f in std::fs::read_dir(recr).into_iter().flatten().flatten() {
                        if f.file_name().to_string_lossy().starts_with(&format!("call-{}-", k)) {
                            recs.push(json::parse(&std::fs::read_to_string(f.path()).unwrap()).unwrap_or(object! {}));
                        }
                    }
                    let left: Vec<String> = recs.iter().flat_map(|r| names(&tmp, r["fp"].as_str().unwrap_or("?"))).collect();
                    let mut harmed = Vec::new();
                    for n in recs.iter().flat_map(|r| r["near"].members().map(|n| n.as_str().unwrap().to_string())) {
                        if std::fs::read(tmp.join(&n)).ok().as_deref() != Some(b"another run") {
                            harmed.push(n.clone());
                        }
                        std::fs::remove_file(tmp.join(&n)).ok();
                    }
                    out["harmed"] = arr(harmed.into_iter().map(|x| x.into()));
                    out["left"] = arr(left.into_iter().map(|x| x.into()));
                    out["rec"] = JsonValue::Array(recs);
                    *rr[k].lock().unwrap() = out;
                });
            }
        });
    }
    STOPPED.store(false, Ordering::Relaxed);
    if limit > 0 {
        unsafe { setrlimit(1, &old) };
    }
    let after = shot(&gep);
    let lost = names(&rec, "lost");
    std::env::set_var("PATH", path);
    std::env::remove_var("GEP_SOLVE_DIR");
    std::fs::remove_dir_all(&root).ok();
    let done = arr(calls.iter().zip(results).map(|(c, r)| {
        let mut o = (*c).clone();
        o["out"] = r.into_inner().unwrap();
        o
    }));
    object! {
        "sid": sid, "env": env, "launch": scn["launch"].clone(), "limit": scn["limit"].clone(), "before": before, "after": after,
        "lost": arr(lost.into_iter().map(|x| x.into())), "calls": done,
    }
}
