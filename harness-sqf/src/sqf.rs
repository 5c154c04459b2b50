pub fn run(_c: &serde_json::Value) -> serde_json::Value { serde_json::json!({}) }
