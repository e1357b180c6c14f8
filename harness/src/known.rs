//! Known findings: violations recorded in /verif/KNOWN_FINDINGS.json are reported as such and not as alarms.

use serde_json::Value;

use crate::engine::Failure;

pub fn path() -> String {
    std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS.json".into())
}

/// An entry suppresses a failure of its property and part only if the case is exactly the listed one, and fails
/// in the listed way.
pub fn matches(id: &str, f: &Failure) -> Option<String> {
    let text = std::fs::read_to_string(path()).ok()?;
    let v: Value = serde_json::from_str(&text).ok()?;
    for e in v.get("known")?.as_array()? {
        if e["property"] == id && e["part"] == f.part.as_str() && e["case"] == f.case && e["fails"].as_str().is_some_and(|m| f.message.contains(m)) {
            return Some(e["what"].as_str().unwrap_or("").to_string());
        }
    }
    None
}
