use json::JsonValue;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Run `f`, turning a panic into None
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub const ODD: i64 = -2_000_000_000;

/// the integer nearest to v/unit, or ODD when v/unit is not (nearly) an integer
pub fn scaled(v: f64, unit: f64) -> i64 {
    let q = v / unit;
    let r = q.round();
    if !q.is_finite() || (q - r).abs() > 1e-6 * (1.0 + r.abs() * 1e-3) || r.abs() > 1.9e9 {
        ODD
    } else {
        r as i64
    }
}

pub fn strs(v: &JsonValue) -> Vec<String> {
    v.members().map(|m| m.as_str().unwrap_or("").to_string()).collect()
}

pub fn outcome<T, E>(r: Option<Result<T, E>>) -> &'static str {
    match r {
        Some(Ok(_)) => "ok",
        Some(Err(_)) => "err",
        None => "panic",
    }
}

/// paths in `dir` that cannot be written to: a full device, a missing directory
pub fn unwritable(dir: &str) -> [String; 2] {
    let full = format!("{}/full", dir);
    let _ = std::fs::remove_file(&full);
    std::os::unix::fs::symlink("/dev/full", &full).unwrap();
    [full, format!("{}/missing/out", dir)]
}

/// order-preserving conversion of an iterator of JSON values
pub fn arr(it: impl IntoIterator<Item = JsonValue>) -> JsonValue {
    JsonValue::Array(it.into_iter().collect())
}

/// a double as the 16 hexadecimal digits of its bits
pub fn hex(v: f64) -> String {
    format!("{:016x}", v.to_bits())
}
pub fn hexs(v: &[f64]) -> JsonValue {
    arr(v.iter().map(|x| hex(*x).into()))
}
pub fn unhex(v: &JsonValue) -> f64 {
    f64::from_bits(u64::from_str_radix(v.as_str().expect("hex"), 16).expect("hex"))
}
