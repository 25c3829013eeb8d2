//! femdrv: executes scenarios on the real fem_2d library and records what it did (one JSON line
//! per session). It never judges anything: the TLA+ trace specifications do.
#[cfg(feature = "alg")]
mod alg_drv;
#[cfg(feature = "cache")]
mod cache_drv;
#[cfg(feature = "geo")]
mod geo_drv;
#[cfg(feature = "import")]
mod import_drv;
#[cfg(feature = "lin")]
mod lin_drv;
#[cfg(feature = "loc")]
mod loc_drv;
#[cfg(feature = "mesh")]
mod mesh_drv;
#[cfg(feature = "num")]
mod num_drv;
#[cfg(feature = "quad")]
mod quad_drv;
#[cfg(feature = "slepc")]
mod slepc_drv;
mod util;

use std::io::{BufRead, BufWriter, Write};

fn main() {
    util::quiet_panics();
    let args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().to_string()).collect();
    #[cfg(feature = "slepc")]
    if args[0].ends_with("mpiexec") {
        slepc_drv::stand_in(&args);
    }
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let input = args.get(2).cloned().unwrap_or_default();
    let output = args.get(3).cloned().unwrap_or_default();
    let run: fn(&json::JsonValue) -> json::JsonValue = match cmd {
        #[cfg(feature = "alg")]
        "alg" => alg_drv::run_session,
        #[cfg(feature = "geo")]
        "geo" => geo_drv::run_session,
        #[cfg(feature = "quad")]
        "quad" => quad_drv::run_session,
        #[cfg(feature = "mesh")]
        "mesh" => mesh_drv::run_session,
        #[cfg(feature = "lin")]
        "lin" => lin_drv::run_session,
        #[cfg(feature = "lin")]
        "eig" => lin_drv::run_eig,
        #[cfg(feature = "slepc")]
        "slepc" => slepc_drv::run_session,
        #[cfg(feature = "import")]
        "import" => import_drv::run_session,
        #[cfg(feature = "cache")]
        "cache" => cache_drv::run_session,
        _ => {
            eprintln!("usage: femdrv FAMILY SCENARIOS OUT");
            std::process::exit(2);
        }
    };
    let inp = std::io::BufReader::new(std::fs::File::open(&input).expect("scenario file"));
    let mut out = BufWriter::new(std::fs::File::create(&output).expect("output file"));
    for line in inp.lines() {
        let line = line.expect("read scenario");
        if line.trim().is_empty() {
            continue;
        }
        let scn = json::parse(&line).expect("scenario JSON");
        let res = run(&scn);
        res.write(&mut out).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}
