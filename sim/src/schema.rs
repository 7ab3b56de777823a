//! A gatekeeper's JSON schema validation: the part of the vocabulary that bears on strings, optional
//! values and lists.

use std::cell::RefCell;
use std::collections::HashMap;

use serde_json::Value;

/// Whether `schema` admits `v`; references are looked up in the definitions of `root`, then in `defs`.
pub fn admits(schema: &Value, root: &Value, defs: &Value, v: &Value, depth: u32) -> Result<bool, String> {
    if depth > 20 {
        return Err("a schema refers to itself".into());
    }
    let o = match schema {
        Value::Bool(b) => return Ok(*b),
        Value::Object(o) => o,
        _ => return Err(format!("{} is not a schema", schema)),
    };
    let sub = |s: &Value| admits(s, root, defs, v, depth + 1);
    for (key, x) in o {
        let ok = match key.as_str() {
            "$ref" => {
                let path = x.as_str().unwrap_or("");
                let name = path.rsplit('/').next().unwrap_or("");
                let own = ["definitions", "$defs"].iter().find_map(|d| root.get(d).and_then(|d| d.get(name)));
                match own.or_else(|| defs.get(name)) {
                    Some(s) => sub(s)?,
                    None => return Err(format!("{} is defined nowhere", path)),
                }
            }
            "type" => match x {
                Value::String(t) => is(t, v),
                Value::Array(l) => l.iter().any(|t| is(t.as_str().unwrap_or(""), v)),
                _ => return Err(format!("{} is not a type", x)),
            },
            // OpenAPI 3 says it this way.
            "nullable" => true,
            "minLength" => v.as_str().map_or(true, |s| s.chars().count() as u64 >= x.as_u64().unwrap_or(0)),
            "maxLength" => v.as_str().map_or(true, |s| s.chars().count() as u64 <= x.as_u64().unwrap_or(u64::MAX)),
            "pattern" => match (v.as_str(), x.as_str()) {
                (Some(s), Some(p)) => matches(p, s),
                _ => true,
            },
            "enum" => x.as_array().map_or(true, |l| l.contains(v)),
            "const" => x == v,
            "items" if x.is_object() => match v.as_array() {
                Some(l) => {
                    let mut all = true;
                    for e in l {
                        all &= admits(x, root, defs, e, depth + 1)?;
                    }
                    all
                }
                None => true,
            },
            "allOf" | "anyOf" | "oneOf" => {
                let mut n = 0;
                let l = x.as_array().cloned().unwrap_or_default();
                for s in &l {
                    n += usize::from(sub(s)?);
                }
                match key.as_str() {
                    "allOf" => n == l.len(),
                    "anyOf" => n > 0,
                    _ => n == 1,
                }
            }
            "not" => !sub(x)?,
            _ => true,
        };
        if !ok && !(v.is_null() && o.get("nullable") == Some(&Value::Bool(true))) {
            return Ok(false);
        }
    }
    Ok(true)
}

fn is(t: &str, v: &Value) -> bool {
    match t {
        "string" => v.is_string(),
        "null" => v.is_null(),
        "array" => v.is_array(),
        "object" => v.is_object(),
        "boolean" => v.is_boolean(),
        "number" => v.is_number(),
        "integer" => v.is_i64() || v.is_u64(),
        _ => false,
    }
}

/// A pattern that this regular expression dialect does not know constrains nothing.
fn matches(p: &str, s: &str) -> bool {
    thread_local!(static SEEN: RefCell<HashMap<String, Option<regex::Regex>>> = RefCell::default());
    SEEN.with(|m| {
        let mut m = m.borrow_mut();
        let r = m.entry(p.to_string()).or_insert_with(|| regex::Regex::new(p).ok());
        r.as_ref().map_or(true, |r| r.is_match(s))
    })
}
