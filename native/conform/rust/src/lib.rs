//! Runs compiled cases: reads values into the generated root type with serde_json.
pub use serde_json::Value;
use serde::{Serialize, de::DeserializeOwned};

/// Is everything in `a` also in `b`?
fn within(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.iter().all(|(k, v)| y.get(k).is_some_and(|w| within(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| within(v, w)),
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        _ => a == b,
    }
}

pub struct Probe<'a> {
    pub value: &'a str,
    pub want: bool,
}

pub fn check<T: DeserializeOwned + Serialize + PartialEq>(sample: &str, probes: &[Probe]) -> Result<usize, (String, String)> {
    let t: T = serde_json::from_str(sample).map_err(|e| (format!("the sample is rejected: {}", e), String::new()))?;
    let v = serde_json::to_value(&t).map_err(|e| (format!("the sample cannot be written: {}", e), String::new()))?;
    let given: Value = serde_json::from_str(sample).unwrap();
    if !within(&given, &v) {
        return Err((format!("the sample is written as {}", v), String::new()));
    }
    match serde_json::from_value::<T>(v.clone()) {
        Ok(u) if u == t => {}
        _ => return Err((format!("what is written is not read back: {}", v), String::new())),
    }
    for p in probes {
        if serde_json::from_str::<T>(p.value).is_ok() != p.want {
            let m = if p.want { "a value of the type is rejected" } else { "a value that is not of the type is accepted" };
            return Err((m.into(), p.value.into()));
        }
    }
    Ok(probes.len())
}

pub type Check = fn(&str, &[Probe]) -> Result<usize, (String, String)>;

/// `file`: one case per line; prints a verdict per case.
pub fn main(file: &str, checks: &[(usize, Check)]) {
    let text = std::fs::read_to_string(file).unwrap();
    let lines: Vec<&str> = text.lines().collect();
    for (i, f) in checks {
        let c: Value = serde_json::from_str(lines[*i]).unwrap();
        let probes: Vec<(String, bool)> = serde_json::from_value(c["probes"].clone()).unwrap();
        let probes: Vec<Probe> = probes.iter().map(|p| Probe { value: &p.0, want: p.1 }).collect();
        match f(c["case"]["input"].as_str().unwrap(), &probes) {
            Ok(n) => println!("{}", serde_json::json!({ "n": n })),
            Err((m, v)) => println!("{}", serde_json::json!({ "case": c["case"], "msg": m, "value": v, "code": c["code"] })),
        }
    }
}
