use crate::kit::*;
use serde_json::json;

/// true if the property holds
pub fn run() -> bool {
    let b = base();
    let d = Lite::new(&b, "boss").unwrap();
    d.govern(&b, json!([])).unwrap().ok
}
