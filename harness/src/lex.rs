//! Independent lexing of data-file text into line tokens. Nothing here uses the crate under test.
//!   blank line            -> {"k":"blank"}
//!   line starting with @  -> {"k":"head","h":"<text after @>"}
//!   JSON object           -> {"k":"json","j":{flattened key: typed scalar}, "l":{key:[...]}}
//!   anything else         -> {"k":"text","a":"<before first :>","c":"1|0 (has colon)","b":"<after first :>", "w":[words of b]}
//! Typed scalars: "s:..." string, "n:..." number, "b:true|false", "z:" null, "o:" other.
use serde_json::{json, Map, Value};

pub fn num(n: &serde_json::Number) -> String {
    if let Some(i) = n.as_i64() { format!("{}", i) }
    else if let Some(u) = n.as_u64() { format!("{}", u) }
    else {
        let f = n.as_f64().unwrap_or(f64::NAN);
        // an f64 that is a whole number is rendered with a trailing ".0" marker so that an
        // integer-typed field holding 1.0 can be told from 1
        format!("{}", f)
    }
}

fn is_float(n: &serde_json::Number) -> bool { n.as_i64().is_none() && n.as_u64().is_none() }

pub fn scalar(v: &Value) -> String {
    match v {
        Value::String(s) => format!("s:{}", s),
        Value::Number(n) if is_float(n) => format!("f:{}", num(n)),
        Value::Number(n) => format!("n:{}", num(n)),
        Value::Bool(b) => format!("b:{}", b),
        Value::Null => "z:".to_string(),
        _ => "o:".to_string(),
    }
}

fn flatten(prefix: &str, m: &Map<String, Value>, j: &mut Map<String, Value>, l: &mut Map<String, Value>) {
    for (k, v) in m {
        let key = if prefix.is_empty() { k.clone() } else { format!("{}.{}", prefix, k) };
        match v {
            Value::Object(o) => {
                j.insert(key.clone(), json!("o:"));
                flatten(&key, o, j, l)
            }
            Value::Array(a) => {
                j.insert(key.clone(), json!("a:"));
                l.insert(key, Value::Array(a.iter().map(|e| match e {
                    Value::Object(o) => {
                        let mut jj = Map::new();
                        let mut ll = Map::new();
                        flatten("", o, &mut jj, &mut ll);
                        jj.insert("_".into(), json!(""));
                        json!({"k":"obj","v":"","o":jj,"p":crate::model::p_param("")})
                    }
                    other => json!({"k":"sc","v":scalar(other),"o":{"_":""},"p":crate::model::p_param(other.as_str().unwrap_or(""))}),
                }).collect()));
            }
            _ => { j.insert(key, json!(scalar(v))); }
        }
    }
}

pub fn lex_json(line: &str) -> Option<Value> {
    match serde_json::from_str::<Value>(line) {
        Ok(Value::Object(o)) => {
            let mut j = Map::new();
            let mut l = Map::new();
            flatten("", &o, &mut j, &mut l);
            // purely lexical readings of a few fields that block lines need: the words of "spec", and
            // the decimal integers in "id", "nextBlock", "subStack1", "subStack2"
            let int = |k: &str| o.get(k).and_then(|v| v.as_i64()).filter(|i| *i >= i32::MIN as i64 && *i <= i32::MAX as i64).unwrap_or(0);
            let (idn, idok) = crate::model::int_or(o.get("id").and_then(|v| v.as_str()).unwrap_or(""));
            let aux = json!({"words": words(o.get("spec").and_then(|v| v.as_str()).unwrap_or("")), "idn": idn, "idok": if idok { "1" } else { "0" },
                "next": int("nextBlock"), "ss1": int("subStack1"), "ss2": int("subStack2")});
            j.insert("_".into(), json!(""));
            l.insert("_".into(), json!([]));
            Some(json!({"k":"json","j":j,"l":l,"aux":aux}))
        }
        _ => None,
    }
}

pub fn words(s: &str) -> Value { Value::Array(s.split(' ').map(|w| json!(w)).collect()) }

pub fn lex_line(line: &str) -> Value {
    if line.is_empty() { return json!({"k":"blank"}); }
    if let Some(h) = line.strip_prefix('@') { return json!({"k":"head","h":h}); }
    if let Some(j) = lex_json(line) { return j; }
    match line.split_once(':') {
        Some((a, b)) => json!({"k":"text","a":a,"c":"1","b":b,"w":words(b)}),
        None => json!({"k":"text","a":line,"c":"0","b":"","w":words("")}),
    }
}

pub fn lex(text: &str) -> Value { Value::Array(text.split('\n').map(lex_line).collect()) }
