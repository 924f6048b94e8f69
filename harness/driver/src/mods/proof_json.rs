//! C21: the JSON document of a proof against the specification's, and documents joined.
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use serde_json::{Map, Value};
use starky::f3g::F3G;
use starky::verif_hooks::fri::Query;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::stark_gen::StarkProof;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use std::collections::BTreeMap;

type Leaves = BTreeMap<(String, Vec<u64>), String>;
fn flat(k: &str, at: &[u64], v: &Value, out: &mut Leaves) {
    let text = match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                flat(k, &[at, &[i as u64]].concat(), x, out);
            }
            format!("[{}]", a.len())
        }
        Value::String(x) => format!("\"{x}\""),
        x => format!("{x}"),
    };
    out.insert((k.into(), at.into()), text);
}
fn leaves(v: &Value) -> Option<Leaves> {
    let mut out = Leaves::new();
    for (k, x) in v.as_object()? {
        flat(k, &[], x, &mut out);
    }
    Some(out)
}
fn address(n: &str) -> String {
    format!("0x{n:0>40}")
}
fn wanted(doc: &Value) -> Leaves {
    l(&doc["#map"])
        .into_iter()
        .map(|e| {
            let e = l(e);
            let (k, x) = (l(e[0]), e[1]);
            let key: String = l(k[0]).into_iter().map(s).collect();
            let n = big(&x["n"]).to_string();
            let text = match u(&x["kind"]) {
                0 => format!("\"{n}\""),
                1 => format!("[{n}]"),
                _ => format!("\"{}\"", address(&n)),
            };
            ((key, lu(k[1])), text)
        })
        .collect()
}
fn grown(k: &str, at: &[u64], d: &Leaves) -> Value {
    let t = &d[&(k.to_string(), at.to_vec())];
    match t.strip_prefix('[') {
        Some(n) => Value::Array((0..n[..n.len() - 1].parse().unwrap()).map(|i| grown(k, &[at, &[i]].concat(), d)).collect()),
        None => Value::String(t.trim_matches('"').into()),
    }
}
fn document(d: &Leaves) -> Value {
    Value::Object(d.keys().filter(|k| k.1.is_empty()).map(|k| (k.0.clone(), grown(&k.0, &[], d))).collect::<Map<_, _>>())
}
fn same(what: &str, got: &Leaves, want: &Leaves) -> R {
    let gone: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(*v)).take(2).map(|(k, v)| format!("{}{:?} is {:?}, not {v}", k.0, k.1, got.get(k))).collect();
    let more: Vec<_> = got.keys().filter(|k| !want.contains_key(*k)).take(2).map(|k| format!("{}{:?}", k.0, k.1)).collect();
    if gone.is_empty() && more.is_empty() {
        return Ok(());
    }
    bad(what, format!("the document differs: {} {}", gone.join("; "), if more.is_empty() { "".into() } else { format!("and has {}", more.join(", ")) }))
}

fn node<M: Tree>(v: &Value) -> M::MTNode {
    let x = lbig(v);
    if x.len() == 4 {
        M::MTNode::new(&gls(&lu(v)))
    } else {
        M::from_basefield(&base::<M>(&v[0]))
    }
}
/// an element of the field of the tree's hash
trait Tree: MerkleTree<ExtendField = F3G> + Default {
    fn base(v: &Value) -> Self::BaseField;
}
macro_rules! tree {
    ($($t:ty),*) => { $(impl Tree for $t {
        fn base(v: &Value) -> Self::BaseField {
            fields::PrimeField::from_str(&big(v).to_string()).unwrap()
        }
    })* };
}
tree!(MerkleTreeGL, MerkleTreeBN128, MerkleTreeBLS12381);
fn base<M: Tree>(v: &Value) -> M::BaseField {
    M::base(v)
}
fn opening<M: Tree>(v: &Value) -> (Vec<fields::field_gl::Fr>, Vec<Vec<M::BaseField>>) {
    (gls(&lu(&v["row"])), l(&v["path"]).into_iter().map(|x| l(x).into_iter().map(base::<M>).collect()).collect())
}
fn elems(v: &Value) -> Vec<F3G> {
    l(v).into_iter().map(|e| { let x = lu(e); if x.len() == 1 { F3G::from(gl(x[0])) } else { F3G::from_vec(gls(&x)) } }).collect()
}
fn proof<M: Tree>(p: &Value) -> StarkProof<M> {
    let r: Vec<M::MTNode> = l(&p["roots"]).into_iter().map(node::<M>).collect();
    let mut q = StarkProof::<M> { root1: r[0], root2: r[1], root3: r[2], root4: r[3], ..Default::default() };
    q.rootC = l(&p["rootC"]).first().map(|x| node::<M>(x));
    (q.evals, q.publics, q.fri_proof.last) = (elems(&p["evals"]), elems(&p["publics"]), elems(&p["last"]));
    let trees: Vec<Vec<_>> = l(&p["trees"]).into_iter().map(|t| l(t).into_iter().map(opening::<M>).collect()).collect();
    q.fri_proof.queries = vec![Query { pol_queries: (0..trees[0].len()).map(|i| trees.iter().map(|t| t[i].clone()).collect()).collect(), root: Default::default() }];
    for x in l(&p["layers"]) {
        q.fri_proof.queries.push(Query { pol_queries: l(&x["open"]).into_iter().map(|o| vec![opening::<M>(o)]).collect(), root: node::<M>(&x["root"]) });
    }
    if u(&p["hash"]) > 0 {
        q.prover_addr = address(&big(&p["addr"]).to_string());
    }
    q
}
/// the parts in which two proofs differ
pub fn differ<M: MerkleTree<ExtendField = F3G>>(a: &StarkProof<M>, b: &StarkProof<M>) -> Vec<&'static str> {
    let root = |a: &M::MTNode, b: &M::MTNode| a.as_elements() == b.as_elements();
    let mut out = vec![];
    let mut t = |ok: bool, what| if !ok { out.push(what) };
    t(root(&a.root1, &b.root1), "root1");
    t(root(&a.root2, &b.root2), "root2");
    t(root(&a.root3, &b.root3), "root3");
    t(root(&a.root4, &b.root4), "root4");
    t(a.rootC.map(|x| x.as_elements().to_vec()) == b.rootC.map(|x| x.as_elements().to_vec()), "rootC");
    t(a.evals == b.evals, "evals");
    t(a.publics == b.publics, "publics");
    // documents of Goldilocks proofs have no address
    t(a.prover_addr == b.prover_addr || std::any::type_name::<M>() == std::any::type_name::<MerkleTreeGL>(), "proverAddr");
    t(a.fri_proof.last == b.fri_proof.last, "finalPol");
    let (x, y) = (&a.fri_proof.queries, &b.fri_proof.queries);
    t(x.len() == y.len(), "number of layers");
    t(x.iter().zip(y).skip(1).all(|(x, y)| root(&x.root, &y.root)), "layer roots");
    t(x.iter().zip(y).all(|(x, y)| x.pol_queries == y.pol_queries), "openings");
    out
}

#[derive(Default)]
pub struct M {
    docs: Vec<Leaves>,
    dir: String,
}
impl M {
    pub fn new(dir: &str) -> Self {
        M { docs: vec![], dir: dir.into() }
    }
    fn written<T: Tree>(&self, st: &Value) -> R {
        let p = proof::<T>(&st["proofs"][0]);
        let want = wanted(&st["out"]);
        let Some(text) = guard(|| serde_json::to_string(&p).unwrap()) else { return bad("write", "a proof is not written".into()) };
        let Ok(v) = serde_json::from_str::<Value>(&text) else { return bad("write_text", "what is written is no JSON".into()) };
        let Some(got) = leaves(&v) else { return bad("write_text", "what is written is no document".into()) };
        same("document", &got, &want)?;
        if text.matches("\":").count() != v.as_object().unwrap().len() {
            return bad("write_keys", "a key is written twice".into());
        }
        // from its own text, and from the specification's document
        for (how, text) in [("own", text.clone()), ("specified", document(&want).to_string())] {
            let Some(q) = guard(|| serde_json::from_str::<StarkProof<T>>(&text).unwrap()) else { return bad("read", format!("its {how} document is not read")) };
            let d = differ(&p, &q);
            if !d.is_empty() {
                return bad("read_back", format!("read from its {how} document, a proof differs in {}", d.join(", ")));
            }
            if serde_json::to_string(&q).unwrap() != text && how == "own" {
                return bad("write_again", "written again, the document differs".into());
            }
        }
        Ok(())
    }
    fn joined(&self, st: &Value) -> R {
        let e = &st["last"];
        let f = |n: &str| format!("{}/zkin_{n}.json", self.dir);
        std::fs::write(f("a"), document(&self.docs[us(&e["a"])]).to_string()).unwrap();
        std::fs::write(f("b"), document(&self.docs[us(&e["b"])]).to_string()).unwrap();
        std::fs::write(f("out"), "something longer that was there before".repeat(1000)).unwrap();
        match guard(|| starky::zkin_join::join_zkin(&f("a"), &f("b"), &f("out"))) {
            Some(Ok(())) => {}
            _ => return bad("join", "two documents are not joined".into()),
        }
        let Some(got) = serde_json::from_str(&std::fs::read_to_string(f("out")).unwrap()).ok().and_then(|v| leaves(&v)) else {
            return bad("join_text", "what is joined is no document".into());
        };
        same("joined", &got, &wanted(&st["out"]))
    }
}
impl Module for M {
    fn start(&mut self, st: &Value) -> R {
        self.docs = l(&st["docs"]).into_iter().map(wanted).collect();
        Ok(())
    }
    fn step(&mut self, st: &Value) -> R {
        let r = if s(&st["last"]["op"]) == "join" {
            self.joined(st)
        } else {
            match us(&st["proofs"][0]["hash"]) {
                0 => self.written::<MerkleTreeGL>(st),
                1 => self.written::<MerkleTreeBN128>(st),
                _ => self.written::<MerkleTreeBLS12381>(st),
            }
        };
        self.docs = l(&st["docs"]).into_iter().map(wanted).collect();
        r
    }
}
