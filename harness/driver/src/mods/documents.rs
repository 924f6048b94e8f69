//! spec/documents.qnt: PIL and structure documents, and the numbers in them.
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use num_bigint::BigInt;
use serde_json::{json, Map, Value};
use starky::types::*;

const TEXTS: [&str; 10] = ["", "cmP", "imP", "Main.a", "Main::a[3]", "a\"b\\c\n\t", "日本 ✓", "null", "0x10", "x/y z.pil"];
const OPS: [&str; 12] = ["number", "cm", "const", "exp", "q", "add", "sub", "mul", "neg", "public", "tmp", "addc"];
const HASHES: [&str; 4] = ["GL", "BN128", "BLS12381", "other"];
fn text(k: u64) -> Value {
    // long texts too
    let t = TEXTS[k as usize % 10];
    if k % 97 == 0 { t.repeat(40).into() } else { t.into() }
}

/// a JSON value that keeps the order of fields and may hold one twice
#[derive(Clone, Debug, PartialEq)]
enum J {
    V(Value),
    L(Vec<J>),
    O(Vec<(String, J)>),
}
fn n(x: &Value) -> J {
    J::V(Value::Number(big(x).to_string().parse().unwrap()))
}
impl J {
    fn render(&self, style: u64, out: &mut String) {
        let gap = |out: &mut String, k: u64| {
            if style & 1 == 1 {
                out.push_str([" ", "\n", "\t ", ""][(style >> 1) as usize % 4]);
            } else if k == 9 {
                out.push(' ');
            }
        };
        match self {
            J::V(v) => match v {
                Value::String(s) if style & 16 != 0 => {
                    // every character escaped
                    out.push('"');
                    for c in s.encode_utf16() {
                        out.push_str(&format!("\\u{c:04x}"));
                    }
                    out.push('"');
                }
                v => out.push_str(&v.to_string()),
            },
            J::L(l) => {
                out.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(out, 0);
                    x.render(style, out);
                }
                gap(out, 0);
                out.push(']');
            }
            J::O(o) => {
                out.push('{');
                let m = o.len();
                for i in 0..m {
                    // some rotation and direction of the fields
                    let j = (i + style as usize * 7) % m;
                    let j = if style & 8 != 0 { m - 1 - j } else { j };
                    if i > 0 {
                        out.push(',');
                    }
                    gap(out, 0);
                    out.push_str(&Value::from(o[j].0.as_str()).to_string());
                    gap(out, 0);
                    out.push(':');
                    gap(out, 9);
                    o[j].1.render(style, out);
                }
                gap(out, 0);
                out.push('}');
            }
        }
    }
    fn value(&self) -> Value {
        match self {
            J::V(v) => v.clone(),
            J::L(l) => l.iter().map(|x| x.value()).collect(),
            J::O(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
        }
    }
    fn is_null(&self) -> bool {
        matches!(self, J::V(Value::Null))
    }
}
#[derive(Default)]
struct Ob(Vec<(String, J)>);
impl Ob {
    fn p(mut self, k: &str, v: J) -> Self {
        self.0.push((k.into(), v));
        self
    }
    fn t(self, k: &str, x: &Value) -> Self {
        let v = text(u(x));
        self.p(k, J::V(v))
    }
    fn n(self, k: &str, x: &Value) -> Self {
        let v = n(x);
        self.p(k, v)
    }
    fn opt(self, k: &str, there: bool, v: impl FnOnce() -> J) -> Self {
        if there { self.p(k, v()) } else { self }
    }
    fn optn(self, k: &str, x: &Value) -> Self {
        self.opt(k, big(x) != BigInt::from(-1), || n(x))
    }
    fn flag(self, k: &str, x: &Value) -> Self {
        self.opt(k, i(x) >= 0, || J::V((i(x) == 1).into()))
    }
    fn nats(self, k: &str, x: &Value) -> Self {
        let v = l(x);
        let there = v.first().map(|y| big(y) != BigInt::from(-2)).unwrap_or(true);
        self.opt(k, there, || J::L(v.into_iter().map(n).collect()))
    }
    fn j(self) -> J {
        J::O(self.0)
    }
}

fn exp(d: &Value, k: usize) -> J {
    let all = l(&d["exps"]);
    let e = all[k];
    Ob::default()
        .p("op", J::V(OPS[us(&e["op"])].into()))
        .n("deg", &e["deg"])
        .optn("id", &e["id"])
        .flag("next", &e["next"])
        .opt("value", i_of(&e["value"]) != -2, || J::V(text(u(&e["value"]))))
        .opt("values", b(&e["hasVals"]), || J::L(l(&e["vals"]).into_iter().map(|c| exp(d, us(c))).collect()))
        .flag("keep", &e["keep"])
        .flag("keep2ns", &e["keep2ns"])
        .optn("idQ", &e["idQ"])
        .opt("const_", i_of(&e["cst"]) != -1, || J::V(Value::from((u(&e["cst"]) as i64) - (1 << 39))))
        .j()
}
fn i_of(x: &Value) -> i64 {
    let v = big(x);
    if v < BigInt::from(0) { i(x) } else { 0 }
}
fn lookup(x: &Value) -> J {
    Ob::default().nats("f", &x["f"]).nats("t", &x["t"]).optn("selF", &x["selF"]).optn("selT", &x["selT"]).t("fileName", &x["file"]).n("line", &x["line"]).j()
}
fn pil(d: &Value) -> J {
    let c = l(&d["counts"]);
    let list = |k: &str, f: &dyn Fn(&Value) -> J| J::L(l(&d[k]).into_iter().map(f).collect());
    let o = us(&d["opt"]);
    let ne = l(&d["exps"]).len();
    Ob::default()
        .n("nCommitments", c[0])
        .n("nQ", c[1])
        .n("nIm", c[2])
        .n("nConstants", c[3])
        .p("publics", list("publics", &|p| {
            let p = l(p);
            Ob::default().p("polType", J::V(["cmP", "imP", "x"][us(p[0])].into())).n("polId", p[1]).n("idx", p[2]).n("id", p[3]).t("name", p[4]).j()
        }))
        .p("references", J::O(l(&d["refs"]).into_iter().enumerate().map(|(j, r)| {
            let r = l(r);
            let o = Ob::default()
                .opt("polType", i_of(r[0]) != -2, || J::V(text(u(r[0]))))
                .p("type", J::V(["cmP", "constP", "imP", ""][us(r[1])].into()))
                .n("id", r[2])
                .n("polDeg", r[3])
                .p("isArray", J::V((u(r[4]) == 1).into()))
                .opt("elementType", i_of(r[5]) != -2, || J::V(text(u(r[5]))))
                .optn("len", r[6]);
            (format!("{}.{j}", TEXTS[j % 10]), o.j())
        }).collect()))
        // the expressions in use, by root: trees
        .p("expressions", J::L(lu(&d["roots"]).into_iter().map(|r| exp(d, r as usize % ne)).collect()))
        .p("polIdentities", list("ids", &|x| {
            let x = l(x);
            Ob::default().n("e", x[0]).t("fileName", x[1]).n("line", x[2]).j()
        }))
        .p("plookupIdentities", list("lookups", &lookup))
        .opt("permutationIdentities", o & 1 == 0, || list("perms", &lookup))
        .opt("connectionIdentities", o & 2 == 0, || list("conns", &|x| {
            Ob::default().nats("pols", &x["f"]).nats("connections", &x["t"]).t("fileName", &x["file"]).n("line", &x["line"]).j()
        }))
        .j()
}
fn structure(d: &Value) -> J {
    let bits = l(&d["bits"]);
    Ob::default()
        .n("nBits", bits[0])
        .n("nBitsExt", bits[1])
        .n("nQueries", bits[2])
        .p("verificationHashType", J::V(HASHES[us(&d["hash"])].into()))
        .p("steps", J::L(bits[3..].iter().map(|x| Ob::default().n("nBits", x).j()).collect()))
        .j()
}

// ---- what was read, field by field (not through the crate's own serialiser)
fn opt<T: Into<Value>>(m: &mut Map<String, Value>, k: &str, v: Option<T>) {
    if let Some(v) = v {
        m.insert(k.into(), v.into());
    }
}
fn seen_exp(e: &Expression) -> Value {
    let mut m = Map::new();
    m.insert("op".into(), e.op.clone().into());
    m.insert("deg".into(), e.deg.into());
    opt(&mut m, "id", e.id);
    opt(&mut m, "next", e.next);
    opt(&mut m, "value", e.value.clone());
    opt(&mut m, "values", e.values.as_ref().map(|v| v.iter().map(seen_exp).collect::<Vec<_>>()));
    opt(&mut m, "keep", e.keep);
    opt(&mut m, "keep2ns", e.keep2ns);
    opt(&mut m, "idQ", e.idQ);
    opt(&mut m, "const_", e.const_);
    m.into()
}
macro_rules! seen_lookup {
    ($x:expr) => {{
        let mut m = Map::new();
        opt(&mut m, "f", $x.f.clone());
        opt(&mut m, "t", $x.t.clone());
        opt(&mut m, "selF", $x.selF);
        opt(&mut m, "selT", $x.selT);
        m.insert("fileName".into(), $x.fileName.clone().into());
        m.insert("line".into(), $x.line.into());
        Value::from(m)
    }};
}
fn seen(p: &PIL) -> Value {
    let mut m = Map::new();
    m.insert("nCommitments".into(), p.nCommitments.into());
    m.insert("nQ".into(), p.nQ.into());
    m.insert("nIm".into(), p.nIm.into());
    m.insert("nConstants".into(), p.nConstants.into());
    m.insert("publics".into(), p.publics.iter().map(|x| json!({"polType": x.polType, "polId": x.polId, "idx": x.idx, "id": x.id, "name": x.name})).collect());
    m.insert("references".into(), Value::Object(p.references.iter().map(|(k, r)| {
        let mut m = Map::new();
        opt(&mut m, "polType", r.polType.clone());
        m.insert("type".into(), r.type_.clone().into());
        m.insert("id".into(), r.id.into());
        m.insert("polDeg".into(), r.polDeg.into());
        m.insert("isArray".into(), r.isArray.into());
        opt(&mut m, "elementType", r.elementType.clone());
        opt(&mut m, "len", r.len);
        (k.clone(), m.into())
    }).collect()));
    m.insert("expressions".into(), p.expressions.iter().map(seen_exp).collect());
    m.insert("polIdentities".into(), p.polIdentities.iter().map(|x| json!({"e": x.e, "fileName": x.fileName, "line": x.line})).collect());
    m.insert("plookupIdentities".into(), p.plookupIdentities.iter().map(|x| seen_lookup!(x)).collect());
    opt(&mut m, "permutationIdentities", p.permutationIdentities.as_ref().map(|v| v.iter().map(|x| seen_lookup!(x)).collect::<Vec<_>>()));
    opt(&mut m, "connectionIdentities", p.connectionIdentities.as_ref().map(|v| v.iter().map(|x| {
        let mut m = Map::new();
        opt(&mut m, "pols", x.pols.clone());
        opt(&mut m, "connections", x.connections.clone());
        m.insert("fileName".into(), x.fileName.clone().into());
        m.insert("line".into(), x.line.into());
        Value::from(m)
    }).collect::<Vec<_>>()));
    m.into()
}
fn seen_struct(s: &StarkStruct) -> Value {
    json!({"nBits": s.nBits, "nBitsExt": s.nBitsExt, "nQueries": s.nQueries, "verificationHashType": s.verificationHashType,
           "steps": s.steps.iter().map(|x| json!({"nBits": x.nBits})).collect::<Vec<_>>()})
}
/// without the optional fields that are null
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), bare(v))).collect()),
        Value::Array(a) => a.iter().map(bare).collect(),
        v => v.clone(),
    }
}

pub struct M(std::path::PathBuf);
impl M {
    pub fn new(dir: &str) -> Self {
        M(std::path::Path::new(dir).join("doc.json"))
    }
    fn check(&self, what: &str, is_pil: bool, doc: &str, want: Option<&Value>) -> R {
        fn read<T: serde::de::DeserializeOwned>(f: &std::path::Path, doc: &str) -> Result<(Option<T>, Option<T>), String> {
            std::fs::write(f, doc).map_err(|e| e.to_string())?;
            Ok((guard(|| read_json::<T>(doc.into())).and_then(|r| r.ok()), guard(|| load_json::<T>(f.to_str().unwrap())).and_then(|r| r.ok())))
        }
        let pair = if is_pil {
            let (a, b) = read::<PIL>(&self.0, doc).map_err(|e| crate::Bad { key: "io".into(), msg: e })?;
            if let (Some(p), Some(w)) = (&a, want) {
                for (name, again) in [("serialised", serde_json::to_string(p).unwrap()), ("displayed", p.to_string())] {
                    let v: Value = serde_json::from_str(&again).unwrap();
                    if bare(&v) != *w {
                        return bad("write", format!("{what}: {name} as {again}, specified {w}"));
                    }
                    if read_json::<PIL>(again).ok().map(|q| seen(&q)).as_ref() != Some(w) {
                        return bad("reread", format!("{what}: {name} and read again"));
                    }
                }
                // one text for one program, whatever the order of the references
                let twin = read_json::<PIL>(p.to_string()).unwrap();
                if p.to_string() != twin.to_string() || serde_json::to_string(p).unwrap() != serde_json::to_string(&twin).unwrap() {
                    return bad("stable", format!("{what}: two texts for one program"));
                }
                for e in &p.expressions {
                    let q: Expression = serde_json::from_str(&e.to_string()).unwrap();
                    if seen_exp(&q) != seen_exp(e) || q != *e {
                        return bad("expression", format!("{what}: {e} is read back as {q}"));
                    }
                }
            }
            (a.map(|p| seen(&p)), b.map(|p| seen(&p)))
        } else {
            let (a, b) = read::<StarkStruct>(&self.0, doc).map_err(|e| crate::Bad { key: "io".into(), msg: e })?;
            if let (Some(p), Some(w)) = (&a, want) {
                let again = serde_json::to_string(p).unwrap();
                if serde_json::from_str::<Value>(&again).unwrap() != *w || read_json::<StarkStruct>(again).ok().as_ref() != Some(p) {
                    return bad("write", format!("{what}: structure {w} is not written back"));
                }
            }
            (a.map(|p| seen_struct(&p)), b.map(|p| seen_struct(&p)))
        };
        if pair.0 != pair.1 {
            return bad("file", format!("{what}: read from text and from a file differently"));
        }
        if pair.0.as_ref() != want {
            return bad(if want.is_some() { "read" } else { "refuse" }, format!("{what}: read as {:?}, specified {want:?}; document {doc}", pair.0));
        }
        Ok(())
    }
}
/// every object of a kind inside a document, in order
fn objects<'a>(j: &'a mut J, kind: &str) -> Vec<&'a mut Vec<(String, J)>> {
    fn sub<'a>(o: &'a mut J, k: &str) -> Option<&'a mut J> {
        match o {
            J::O(v) => v.iter_mut().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    fn ob(j: &mut J) -> Vec<&mut Vec<(String, J)>> {
        match j {
            J::O(v) => vec![v],
            _ => vec![],
        }
    }
    fn exps<'a>(j: &'a mut J, out: &mut Vec<&'a mut Vec<(String, J)>>, deep: bool) {
        // the innermost first child, or the expression itself
        if deep {
            let has = matches!(j, J::O(v) if v.iter().any(|(n, x)| n == "values" && matches!(x, J::L(l) if !l.is_empty())));
            if has {
                if let Some(J::L(l)) = sub(j, "values") {
                    return exps(&mut l[0], out, true);
                }
                return;
            }
        }
        if let J::O(v) = j {
            out.push(v);
        }
    }
    let (list, key) = match kind {
        "pil" | "struct" => return ob(j),
        "public" => (true, "publics"),
        "ref" => (false, "references"),
        "exp" => (true, "expressions"),
        "identity" => (true, "polIdentities"),
        "plookup" => (true, "plookupIdentities"),
        "permutation" => (true, "permutationIdentities"),
        "connection" => (true, "connectionIdentities"),
        _ => (true, "steps"),
    };
    let mut out = vec![];
    match sub(j, key) {
        Some(J::L(v)) if list => {
            for (k, x) in v.iter_mut().enumerate() {
                if kind == "exp" {
                    exps(x, &mut out, k % 2 == 1);
                } else {
                    out.extend(ob(x));
                }
            }
        }
        Some(J::O(v)) => v.iter_mut().for_each(|(_, x)| out.extend(ob(x))),
        _ => {}
    }
    out
}

impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let style = u(&e["style"]);
        match s(&e["op"]) {
            "read" => {
                let p = pil(&e["doc"]);
                let mut t = String::new();
                if style % 8 == 3 {
                    // long documents
                    t.push_str(&" \n".repeat(1000 << (style / 8)));
                }
                p.render(style, &mut t);
                self.check("program", true, &t, Some(&p.value()))?;
                let p = structure(&e["doc"]);
                let mut t = String::new();
                p.render(style, &mut t);
                self.check("structure", false, &t, Some(&p.value()))
            }
            "fault" => {
                let (obj, name, fault) = (s(&e["obj"]), s(&e["name"]), s(&e["what"]));
                let is_pil = obj != "struct" && obj != "step";
                let mut p = if is_pil { pil(&e["doc"]) } else { structure(&e["doc"]) };
                let at = us(&e["at"]);
                let mut os = objects(&mut p, obj);
                if os.is_empty() {
                    return Ok(());
                }
                let m = os.len();
                let o = &mut *os[at % m];
                let pos = o.iter().position(|(k, _)| k == name);
                let new = |v: Value| J::V(v);
                let put = |o: &mut Vec<(String, J)>, v: J| match pos {
                    Some(q) => o[q].1 = v,
                    None => o.push((name.to_string(), v)),
                };
                match fault {
                    "absent" => o.retain(|(k, _)| k != name),
                    "null" => put(o, new(Value::Null)),
                    "negative" => put(o, new((-7).into())),
                    "fraction" => put(o, new(json!(1.5))),
                    "huge" => put(o, new(serde_json::from_str("18446744073709551616").unwrap())),
                    "text" => put(o, new("7".into())),
                    "number" => put(o, new(7.into())),
                    "truth" => put(o, new(true.into())),
                    "list" => put(o, J::L(vec![])),
                    "object" => put(o, J::O(vec![])),
                    "twice" => {
                        if pos.is_none() {
                            return Ok(());
                        }
                        let v = o[pos.unwrap()].1.clone();
                        o.push((name.to_string(), v));
                    }
                    "extra" => o.insert(0, (format!("{name}_"), new("unknown".into()))),
                    _ => {}
                }
                let mut t = String::new();
                p.render(style, &mut t);
                match fault {
                    "cut" => {
                        let mut c = at % t.len();
                        while !t.is_char_boundary(c) {
                            c -= 1;
                        }
                        t.truncate(c);
                    }
                    "trailing" => t.push_str(["}", " 1", ",", "{}"][at % 4]),
                    "empty_doc" => t = ["", " ", "null", "[]", "7"][at % 5].into(),
                    _ => {}
                }
                let want = b(&e["ok"]).then(|| {
                    if fault == "extra" {
                        objects(&mut p, obj)[at % m].remove(0);
                    }
                    bare(&p.value())
                });
                self.check(&format!("{obj}.{name} {fault}"), is_pil, &t, want.as_ref())
            }
            "number" => {
                let m = big(&e["mag"]);
                let d = match us(&e["hex"]) {
                    0 => m.to_string(),
                    1 => m.to_str_radix(16),
                    _ => m.to_str_radix(16).to_uppercase(),
                };
                let t = format!(
                    "{}{}{}{d}",
                    if b(&e["neg"]) { "-" } else { "" },
                    if us(&e["hex"]) > 0 { "0x" } else { "" },
                    "0".repeat(us(&e["zeros"]))
                );
                let g = guard(|| parse_pil_number(&t));
                if g != Some(u(&e["out"])) && !(g.is_none() && b(&e["may"])) {
                    return bad("number", format!("{t} is read as {g:?}, specified {}", u(&e["out"])));
                }
                Ok(())
            }
            o => panic!("op {o}"),
        }
    }
}
