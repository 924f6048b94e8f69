//! Reading ITF traces written by `quint run`.
use num_bigint::BigInt;
use num_traits::{ToPrimitive, Zero};
use serde_json::Value;

pub fn big(v: &Value) -> BigInt {
    match v {
        Value::Number(n) => n.to_string().parse().unwrap(),
        Value::Object(m) => m["#bigint"].as_str().unwrap().parse().unwrap(),
        _ => panic!("not an integer in trace: {v}"),
    }
}
pub fn u(v: &Value) -> u64 {
    big(v).to_u64().expect("u64 in trace")
}
pub fn us(v: &Value) -> usize {
    u(v) as usize
}
pub fn i(v: &Value) -> i64 {
    big(v).to_i64().expect("i64 in trace")
}
pub fn s(v: &Value) -> &str {
    v.as_str().expect("string in trace")
}
pub fn b(v: &Value) -> bool {
    v.as_bool().expect("bool in trace")
}
pub fn l(v: &Value) -> Vec<&Value> {
    if let Some(a) = v.as_array() {
        return a.iter().collect();
    }
    for k in ["#set", "#tup"] {
        if let Some(a) = v.get(k).and_then(|x| x.as_array()) {
            return a.iter().collect();
        }
    }
    panic!("not a list in trace: {v}")
}
pub fn lu(v: &Value) -> Vec<u64> {
    l(v).into_iter().map(u).collect()
}
pub fn lbig(v: &Value) -> Vec<BigInt> {
    l(v).into_iter().map(big).collect()
}
pub fn llu(v: &Value) -> Vec<Vec<u64>> {
    l(v).into_iter().map(lu).collect()
}
/// sum type: (tag, value)
pub fn tag(v: &Value) -> (&str, &Value) {
    (s(&v["tag"]), &v["value"])
}
/// compact rendering of a trace value
pub fn show(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            if let Some(x) = m.get("#bigint") {
                return x.as_str().unwrap().to_string();
            }
            for k in ["#set", "#tup"] {
                if let Some(x) = m.get(k) {
                    return show(x);
                }
            }
            if let (Some(t), Some(x)) = (m.get("tag"), m.get("value")) {
                return format!("{}({})", t.as_str().unwrap_or(""), show(x));
            }
            let items: Vec<String> = m.iter().map(|(k, x)| format!("{k}:{}", show(x))).collect();
            format!("{{{}}}", items.join(","))
        }
        Value::Array(a) => {
            let items: Vec<String> = a.iter().map(show).collect();
            format!("[{}]", items.join(","))
        }
        _ => v.to_string(),
    }
}
pub fn is_zero(v: &BigInt) -> bool {
    v.is_zero()
}
