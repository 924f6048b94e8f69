//! spec/stark.qnt on the STARK setup, prover, verifier and proof serialisation of `starky`
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::Fr as FGL;
use num_bigint::BigInt;
use serde_json::{json, Map, Value};
use starky::f3g::F3G;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::traits::{FieldExtension, MerkleTree, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use starky::types::{StarkStruct, PIL};

// ---- a program as the compiler writes it
fn expr(e: &[&Value], i: usize, loose: bool) -> Value {
    let d = e[i];
    let (op, v) = (s(&d["op"]), &d["v"]);
    let sub = |k: &str| expr(e, us(&d[k]), loose);
    let deg = |x: &Value| x["deg"].as_u64().unwrap();
    match op {
        "number" => json!({"op": op, "deg": 0, "value": big(v).to_string()}),
        "public" => json!({"op": op, "deg": 0, "id": us(v)}),
        "cm" | "const" | "exp" => {
            let mut r = json!({"op": op, "deg": 1, "id": us(v)});
            if b(&d["nx"]) || loose {
                r["next"] = json!(b(&d["nx"]));
            }
            r
        }
        "neg" => {
            let x = sub("a");
            json!({"op": op, "deg": deg(&x), "values": [x]})
        }
        _ => {
            let (x, y) = (sub("a"), sub("b"));
            let n = if op == "mul" { deg(&x) + deg(&y) } else { deg(&x).max(deg(&y)) };
            json!({"op": op, "deg": n, "values": [x, y]})
        }
    }
}
pub struct Named {
    pub pil: PIL,
    pub l1: Option<String>,
}
/// `names` chooses namespaces, arrays and the name of the first-row column
pub fn pil(p: &Value, names: u64) -> Named {
    let n = 1u64 << u(&p["nb"]);
    let (nc, nk) = (l(&p["cms"]).len(), l(&p["consts"]).len());
    let mut refs = Map::new();
    let l1 = if names % 3 == 1 { "main.first_step" } else { "Global.L1" };
    let mut put = |name: String, kind: &str, id: usize, len: usize| {
        let mut r = json!({"type": kind, "id": id, "polDeg": n, "isArray": len > 0});
        if len > 0 {
            r["len"] = json!(len);
        }
        if kind != "imP" && names % 2 == 1 {
            r["elementType"] = json!("field");
        }
        refs.insert(name, r);
    };
    put(l1.into(), "constP", 0, 0);
    let ns = |i: usize| if names >= 2 { ["Main", "Aux", "Global"][i % 3] } else { "Main" };
    for (kind, from, top) in [("constP", 1, nk), ("cmP", 0, nc)] {
        let mut i = from;
        while i < top {
            let len = if names >= 3 && i % 2 == 1 { (top - i).min(3) } else { 0 };
            put(format!("{}.{}{i}", ns(i), if kind == "cmP" { "c" } else { "K" }), kind, i, len);
            i += len.max(1);
        }
    }
    let mut nq = 0;
    let exprs: Vec<Value> = l(&p["exprs"])
        .iter()
        .enumerate()
        .map(|(i, e)| {
            let e = l(e);
            let mut r = expr(&e, e.len() - 1, names % 2 == 0);
            if r["deg"].as_u64().unwrap() > 1 {
                if names % 2 == 0 {
                    r["idQ"] = json!(nq);
                    r["deg"] = json!(1);
                    nq += 1;
                }
                if names >= 4 {
                    put(format!("{}.e{i}", ns(i)), "imP", i, 0);
                }
            }
            r
        })
        .collect();
    let ids = |v: &Value| -> Vec<u64> { lu(v) };
    let sel = |v: &Value| if big(v) < BigInt::from(0) { Value::Null } else { json!(u(v)) };
    let incl = |v: &Value| -> Vec<Value> {
        l(v).iter()
            .map(|x| json!({"f": ids(&x["f"]), "t": ids(&x["t"]), "selF": sel(&x["selF"]), "selT": sel(&x["selT"]), "fileName": "p.pil", "line": 1}))
            .collect()
    };
    let publics: Vec<Value> = l(&p["publics"])
        .iter()
        .enumerate()
        .map(|(i, x)| json!({"polType": s(&x["kind"]), "polId": u(&x["pol"]), "idx": u(&x["row"]), "id": i, "name": format!("pub{i}")}))
        .collect();
    let j = json!({
        "nCommitments": nc, "nQ": nq, "nIm": 0, "nConstants": nk, "publics": publics, "references": refs, "expressions": exprs,
        "polIdentities": ids(&p["ids"]).iter().map(|e| json!({"e": e, "fileName": "p.pil", "line": 1})).collect::<Vec<_>>(),
        "plookupIdentities": incl(&p["lookups"]),
        "permutationIdentities": incl(&p["perms"]),
        "connectionIdentities": l(&p["conns"]).iter().map(|x| json!({"pols": ids(&x["pols"]), "connections": ids(&x["conns"]), "fileName": "p.pil", "line": 1})).collect::<Vec<_>>(),
    });
    Named { pil: serde_json::from_str(&j.to_string()).unwrap(), l1: (l1 != "Global.L1").then(|| l1.to_string()) }
}
/// every column 2^t times, except the first-row column
fn repeated(st: &Value, t: u64) -> Value {
    let mut st = st.clone();
    let nb = u(&st["w"]["p"]["nb"]) + t;
    st["w"]["p"]["nb"] = json!({"#bigint": nb.to_string()});
    for kind in ["cms", "consts"] {
        for (i, c) in st["w"]["p"][kind].as_array_mut().unwrap().iter_mut().enumerate() {
            let x = l(c);
            *c = if kind == "consts" && i == 0 {
                let one = |v: u64| json!({"#bigint": v.to_string()});
                Value::Array((0..1u64 << nb).map(|i| one((i == 0) as u64)).collect())
            } else {
                Value::Array((0..1 << t).flat_map(|_| x.iter().map(|v| (*v).clone())).collect())
            };
        }
    }
    st
}
pub fn columns(pil: &PIL, kind: PolKind, c: &Value) -> PolsArray {
    let mut a = PolsArray::new(pil, kind);
    for (i, x) in l(c).iter().enumerate() {
        a.array[i] = gls(&lu(x));
    }
    a
}
pub fn stark_struct(nb: u64, c: &Value) -> StarkStruct {
    let hash = ["GL", "BN128", "BLS12381"][us(&c["hash"])];
    serde_json::from_value(json!({
        "nBits": nb, "nBitsExt": u(&c["nbExt"]), "nQueries": u(&c["q"]),
        "verificationHashType": hash,
        "steps": lu(&c["steps"]).iter().map(|b| json!({"nBits": b})).collect::<Vec<_>>(),
    }))
    .unwrap()
}

// ---- a transcript that writes down what is said, and may answer from a script instead of a hash
#[derive(Clone, PartialEq, Debug)]
pub enum Said {
    Put(Vec<u64>),
    Draw,
    Positions(usize, usize),
}
#[derive(Default)]
pub struct Stage {
    pub said: Vec<Said>,
    pub script: Option<Script>,
    /// the challenges and query positions given
    pub given: Vec<F3G>,
    pub at: Vec<usize>,
}
/// every answer follows from the seed and its place in the conversation alone; the first ones may be given
#[derive(Clone, Default)]
pub struct Script {
    pub seed: u64,
    pub draws: Vec<Vec<u64>>,
    /// query every position
    pub all: bool,
}
impl Script {
    pub fn of(seed: u64) -> Self {
        Script { seed, ..Default::default() }
    }
}
thread_local! { pub static STAGE: std::cell::RefCell<Stage> = Default::default(); }
pub fn stage<X>(script: Option<Script>, f: impl FnOnce() -> X) -> (X, Vec<Said>) {
    STAGE.with(|t| *t.borrow_mut() = Stage { script, ..Default::default() });
    let x = f();
    (x, STAGE.with(|t| std::mem::take(&mut *t.borrow_mut())).said)
}
pub fn scripted(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub struct Tx<T>(T, u64);
impl<T: Transcript> Tx<T> {
    fn answer(&mut self) -> Option<u64> {
        let seed = STAGE.with(|t| t.borrow().script.as_ref().map(|s| s.seed))?;
        self.1 += 1;
        Some(scripted(seed, self.1))
    }
    fn say(x: Said) {
        STAGE.with(|t| t.borrow_mut().said.push(x))
    }
}
impl<T: Transcript> Transcript for Tx<T> {
    fn new() -> Self {
        Tx(T::new(), 0)
    }
    fn get_field<F: FieldExtension>(&mut self) -> F {
        Self::say(Said::Draw);
        let x: F = match self.answer() {
            Some(a) => {
                let given = STAGE.with(|t| t.borrow().script.as_ref().unwrap().draws.get(self.1 as usize - 1).cloned());
                F::from_vec(given.map(|v| gls(&v)).unwrap_or_else(|| (0..3).map(|i| gl(scripted(a, i) % P)).collect()))
            }
            None => self.0.get_field(),
        };
        STAGE.with(|t| t.borrow_mut().given.push(F3G::from_vec(x.as_elements())));
        x
    }
    fn get_fields1(&mut self) -> anyhow::Result<FGL> {
        Self::say(Said::Draw);
        self.0.get_fields1()
    }
    fn put(&mut self, es: &[Vec<FGL>]) -> anyhow::Result<()> {
        for e in es {
            Self::say(Said::Put(ungl(e)));
        }
        self.0.put(es)
    }
    fn get_permutations(&mut self, n: usize, nbits: usize) -> anyhow::Result<Vec<usize>> {
        Self::say(Said::Positions(n, nbits));
        let at = match self.answer() {
            Some(_) if STAGE.with(|t| t.borrow().script.as_ref().unwrap().all) => (0..n).collect(),
            Some(a) => (0..n as u64).map(|i| (scripted(a, i) % (1 << nbits)) as usize).collect(),
            None => self.0.get_permutations(n, nbits)?,
        };
        STAGE.with(|t| t.borrow_mut().at = at.clone());
        Ok(at)
    }
}
/// what should have been said
fn talk<M: MerkleTree<ExtendField = F3G>>(ev: &Value, p: &StarkProof<M>) -> Vec<Said> {
    use starky::traits::MTNodeType;
    let mut out = vec![];
    let mut layer = 0;
    let each = |x: &[F3G], out: &mut Vec<Said>| {
        for e in x.iter() {
            out.extend(ungl(&e.as_elements()).into_iter().map(|v| Said::Put(vec![v])));
        }
    };
    let node = |n: &M::MTNode| Said::Put(ungl(n.as_elements()));
    for t in l(&ev["talk"]) {
        match s(t) {
            "publics" => each(&p.publics, &mut out),
            "evals" => each(&p.evals, &mut out),
            "last" => each(&p.fri_proof.last, &mut out),
            "root1" => out.push(node(&p.root1)),
            "root2" => out.push(node(&p.root2)),
            "root3" => out.push(node(&p.root3)),
            "root4" => out.push(node(&p.root4)),
            "layer" => {
                layer += 1;
                out.push(node(&p.fri_proof.queries[layer].root))
            }
            "draw" => out.push(Said::Draw),
            "positions" => out.push(Said::Positions(us(&ev["cfg"]["q"]), us(&ev["cfg"]["nbExt"]))),
            o => panic!("talk {o}"),
        }
    }
    out
}

// ---- proving
pub struct Proved<M: MerkleTree + Default> {
    pub setup: StarkSetup<M>,
    pub st: StarkStruct,
    pub proof: Option<StarkProof<M>>,
    /// the challenges and query positions of the proof
    pub given: Vec<F3G>,
    pub at: Vec<usize>,
}
fn told<E: std::fmt::Display>(e: E) {
    if std::env::var("DRIVER_PANICS").is_ok() {
        eprintln!("refused: {e}");
    }
}
pub fn setup<M: MerkleTree + Default>(p: &Value, c: &Value) -> Option<(StarkSetup<M>, StarkStruct, PIL)> {
    let mut y = pil(p, u(&c["names"]));
    let st = stark_struct(u(&p["nb"]), c);
    let k = columns(&y.pil, PolKind::Constant, &p["consts"]);
    let x = guard(|| StarkSetup::<M>::new(&k, &mut y.pil, &st, y.l1.clone()).map_err(told).ok()).flatten()?;
    Some((x, st, y.pil))
}
pub fn prove<M: MerkleTree + Default, T: Transcript>(p: &Value, c: &Value) -> Option<Proved<M>> {
    let (setup, st, after) = setup::<M>(p, c)?;
    let before = pil(p, u(&c["names"])).pil;
    let proof = guard(|| {
        StarkProof::<M>::stark_gen::<T>(
            columns(&before, PolKind::Commit, &p["cms"]),
            columns(&before, PolKind::Constant, &p["consts"]),
            &setup.const_tree,
            &setup.starkinfo,
            &setup.program,
            &after,
            &st,
            "0x1234567890abcdef",
        )
        .map_err(told)
        .ok()
    })
    .flatten();
    let (given, at) = STAGE.with(|t| (t.borrow().given.clone(), t.borrow().at.clone()));
    Some(Proved { setup, st, proof, given, at })
}
pub fn accepted<M: MerkleTree + Default, T: Transcript>(x: &Proved<M>, p: &StarkProof<M>, root: &M::MTNode) -> bool {
    guard(|| stark_verify::<M, T>(p, root, &x.setup.starkinfo, &x.st, &x.setup.program).unwrap_or(false)).unwrap_or(false)
}
fn copy<M: MerkleTree>(p: &StarkProof<M>) -> StarkProof<M> {
    StarkProof {
        root1: p.root1,
        root2: p.root2,
        root3: p.root3,
        root4: p.root4,
        fri_proof: starky::verif_hooks::fri::FRIProof {
            queries: p
                .fri_proof
                .queries
                .iter()
                .map(|q| starky::verif_hooks::fri::Query { pol_queries: q.pol_queries.clone(), root: q.root })
                .collect(),
            last: p.fri_proof.last.clone(),
        },
        evals: p.evals.clone(),
        publics: p.publics.clone(),
        rootC: p.rootC,
        prover_addr: p.prover_addr.clone(),
    }
}

// ---- alterations
/// another digest: one of its numbers changed by c
pub fn other<N: serde::Serialize + serde::de::DeserializeOwned>(x: &N, a: u64, c: u64) -> N {
    fn go(v: &mut Value, a: u64, c: u64) {
        match v {
            Value::Array(l) => {
                let n = l.len() as u64;
                go(&mut l[(a % n) as usize], 0, c)
            }
            Value::String(t) => {
                let x: BigInt = t.parse().unwrap();
                // both scalar fields and the Goldilocks field have a value on one side of x
                let m = if x < BigInt::from(P) { BigInt::from(P) } else { x.clone() };
                *t = ((x + BigInt::from(c)) % m).to_string();
            }
            o => panic!("digest in JSON: {o}"),
        }
    }
    let mut v = serde_json::to_value(x).unwrap();
    go(&mut v, a, c);
    serde_json::from_value(v).unwrap()
}
fn shift(x: &mut F3G, a: u64, c: u64) {
    let mut v = vec![0; 3];
    v[(a % if x.dim == 1 { 1 } else { 3 }) as usize] = c;
    let d = if x.dim == 1 { F3G::from(gl(c)) } else { F3G::from_vec(gls(&v)) };
    *x += d;
}
/// the polynomial of least degree with the values ys at xs, at x
fn through(xs: &[FGL], ys: &[FGL], x: FGL) -> FGL {
    use fields::Field;
    let mut r = gl(0);
    for (i, y) in ys.iter().enumerate() {
        let mut t = *y;
        for (j, o) in xs.iter().enumerate() {
            if i != j {
                t = t * (x - *o) * (xs[i] - *o).inverse().unwrap();
            }
        }
        r = r + t;
    }
    r
}
/// the altered proof and constant root, None when there is nothing of that kind to alter
fn altered<M: MerkleTree<ExtendField = F3G> + Default>(x: &Proved<M>, p: &StarkProof<M>, e: &Value) -> Option<(StarkProof<M>, M::MTNode)> {
    let (what, a, b2, c) = (s(&e["what"]), us(&e["a"]), us(&e["b"]), u(&e["c"]));
    let mut q = copy(p);
    let mut k = x.setup.const_root;
    let ix = |v: usize, n: usize| if n == 0 { None } else { Some(v % n) };
    let nq = x.st.nQueries;
    match what {
        "root1" => q.root1 = other(&p.root1, b2 as u64, c),
        "root2" => q.root2 = other(&p.root2, b2 as u64, c),
        "root3" => q.root3 = other(&p.root3, b2 as u64, c),
        "root4" => q.root4 = other(&p.root4, b2 as u64, c),
        "const_root" => k = other(&k, b2 as u64, c),
        "root_swap" => {
            let r = [p.root1, p.root2, p.root3, p.root4];
            let (i, j) = (a % 4, b2 % 4);
            if r[i].eq_node(&r[j]) {
                return None;
            }
            let mut r = r;
            r.swap(i, j);
            (q.root1, q.root2, q.root3, q.root4) = (r[0], r[1], r[2], r[3]);
        }
        "layer" => {
            let i = 1 + ix(a, p.fri_proof.queries.len() - 1)?;
            q.fri_proof.queries[i].root = other(&p.fri_proof.queries[i].root, b2 as u64, c)
        }
        "layer_swap" => {
            let n = p.fri_proof.queries.len() - 1;
            let (i, j) = (1 + ix(a, n)?, 1 + ix(b2, n)?);
            if i == j {
                return None;
            }
            let t = q.fri_proof.queries[i].root;
            q.fri_proof.queries[i].root = q.fri_proof.queries[j].root;
            q.fri_proof.queries[j].root = t;
        }
        "eval" => {
            let i = ix(a, p.evals.len())?;
            shift(&mut q.evals[i], b2 as u64, c)
        }
        "eval_swap" => {
            let (i, j) = (ix(a, p.evals.len())?, ix(b2, p.evals.len())?);
            if p.evals[i]._eq(&p.evals[j]) {
                return None;
            }
            q.evals.swap(i, j)
        }
        "eval_drop" => {
            q.evals.remove(ix(a, p.evals.len())?);
        }
        "public" => {
            let i = ix(a, p.publics.len())?;
            shift(&mut q.publics[i], b2 as u64, c)
        }
        "public_swap" => {
            let (i, j) = (ix(a, p.publics.len())?, ix(b2, p.publics.len())?);
            if p.publics[i]._eq(&p.publics[j]) {
                return None;
            }
            q.publics.swap(i, j)
        }
        "row" | "fold_row" => {
            let layer = if what == "row" { 0 } else { 1 + ix(a, p.fri_proof.queries.len() - 1)? };
            let t = &mut q.fri_proof.queries[layer].pol_queries[b2 % nq];
            let n = t.len();
            let r = &mut t[(a / 8) % n].0;
            let i = ix((c % 1000) as usize, r.len())?;
            r[i] = r[i] + gl(c)
        }
        "row_swap" => {
            let t = &mut q.fri_proof.queries[0].pol_queries[b2 % nq][a % 5].0;
            let i = ix((c % 1000) as usize, t.len())?;
            let j = ix((c / 1000) as usize, t.len())?;
            if t[i] == t[j] {
                return None;
            }
            t.swap(i, j)
        }
        "path" | "fold_path" => {
            let layer = if what == "path" { 0 } else { 1 + ix(a, p.fri_proof.queries.len() - 1)? };
            let t = &mut q.fri_proof.queries[layer].pol_queries[b2 % nq];
            let n = t.len();
            let y = &mut t[(a / 8) % n].1;
            let i = ix((c % 1000) as usize, y.len())?;
            let j = ix((c / 1000) as usize, y[i].len())?;
            // in the wider trees the sibling in the node's own place is not used: change a pair
            let n = y[i].len();
            for j in if n == 16 { vec![j, (j + 1) % n] } else { vec![j] } {
                let o = other(&M::from_basefield(&y[i][j]), 0, c);
                y[i][j] = M::to_basefield(&o)[0].clone();
            }
        }
        "last" => {
            let i = ix(a, p.fri_proof.last.len())?;
            shift(&mut q.fri_proof.last[i], b2 as u64, c)
        }
        "last_swap" => {
            let n = p.fri_proof.last.len();
            let (i, j) = (ix(a, n)?, ix(b2, n)?);
            if p.fri_proof.last[i]._eq(&p.fri_proof.last[j]) {
                return None;
            }
            q.fri_proof.last.swap(i, j)
        }
        // changes that a single check notices when no challenge moves
        "last_degree" | "last_one" => {
            let bits = x.st.steps.last().unwrap().nBits;
            let n = 1usize << bits;
            let w = starky::constant::MG.0[bits];
            let mut at: Vec<usize> = x.at.iter().map(|y| y % n).collect();
            at.sort();
            at.dedup();
            let at: Vec<FGL> = at.iter().map(|y| w.exp(*y as u64)).collect();
            let d: Box<dyn Fn(FGL) -> FGL> = if what == "last_degree" {
                // one coefficient above the bound, and nothing where it is queried
                let max = 1usize << bits.saturating_sub(x.st.nBitsExt - x.st.nBits);
                if max >= n || at.is_empty() {
                    return None;
                }
                let k = [max, n - 1, max + (a / 4) % (n - max)][a % 3].max(at.len());
                if k >= n {
                    return None;
                }
                let ys: Vec<FGL> = at.iter().map(|x| x.exp(k as u64)).collect();
                Box::new(move |x: FGL| x.exp(k as u64) - through(&at, &ys, x))
            } else {
                // different at one of the queried values
                let i = ix(a, at.len())?;
                let ys: Vec<FGL> = (0..at.len()).map(|j| gl((i == j) as u64)).collect();
                Box::new(move |x: FGL| through(&at, &ys, x))
            };
            let e = b2 % 3;
            for (j, v) in q.fri_proof.last.iter_mut().enumerate() {
                let mut t = v.as_elements();
                t.resize(3, gl(0));
                t[e] = t[e] + gl(c) * d(w.exp(j as u64));
                *v = F3G::from_vec(t);
            }
        }
        "eval_pair" => {
            let su = &x.setup.starkinfo;
            if su.q_deg < 2 || x.given.len() < 8 {
                return None;
            }
            let (i, j) = (a % su.q_deg, (a + 1 + b2 % (su.q_deg - 1)) % su.q_deg);
            let (i, j) = (i.min(j), i.max(j));
            let ev = |i: usize| *su.ev_idx.get("cm", 0, su.qs[i]).unwrap();
            let (k, l) = (ev(i), ev(j));
            let between = |k: usize, l: usize| su.ev_map[k..l].iter().filter(|e| !e.prime).count();
            let (xi, v2) = (x.given[5], x.given[7]);
            // the sum over the opened columns stays, and the quotient changes by c in one coordinate
            let r = if k < l { F3G::ZERO - v2.exp(between(k, l)) } else { F3G::ZERO - v2.exp(between(l, k)).inv() };
            let xn = xi.exp(1 << x.st.nBits);
            let z = xn - F3G::ONE;
            let m = z * (xn.exp(i) + xn.exp(j) * r);
            let mut t = gls(&[0, 0, 0]);
            t[(c % 3) as usize] = gl(c);
            let d = F3G::from_vec(t) * m.inv();
            q.evals[k] += d;
            q.evals[l] += d * r;
        }
        "last_double" => {
            let t = q.fri_proof.last.clone();
            q.fri_proof.last.extend(t);
        }
        "query_swap" => {
            let t = &mut q.fri_proof.queries[a % p.fri_proof.queries.len()].pol_queries;
            let (i, j) = (b2 % nq, c as usize % nq);
            if t[i] == t[j] {
                return None;
            }
            t.swap(i, j)
        }
        "last_drop" => {
            q.fri_proof.last.pop()?;
        }
        "query_drop" => {
            let n = q.fri_proof.queries.len();
            q.fri_proof.queries[a % n].pol_queries.pop()?;
        }
        o => panic!("alteration {o}"),
    }
    Some((q, k))
}
pub trait Same {
    fn eq_node(&self, o: &Self) -> bool;
}
impl<N: serde::Serialize> Same for N {
    fn eq_node(&self, o: &Self) -> bool {
        serde_json::to_value(self).unwrap() == serde_json::to_value(o).unwrap()
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Complete,
    Sound,
    Json,
    Files,
    Circuit,
}
/// the generated circom text, run on the document of a proof
struct Text {
    prog: crate::circom::Prog,
    agg: bool,
    /// inputs it asked for
    asked: std::cell::RefCell<std::collections::BTreeSet<String>>,
    /// what the hashes of the transcript gave for the proof as it was made, and whether they are to give it again
    heard: std::rc::Rc<std::cell::RefCell<Vec<crate::circom::Cells>>>,
    again: std::rc::Rc<std::cell::Cell<bool>>,
}
use crate::circom::Err;
impl Text {
    fn of(mut prog: crate::circom::Prog, agg: bool) -> Self {
        let (heard, again): (std::rc::Rc<std::cell::RefCell<Vec<crate::circom::Cells>>>, std::rc::Rc<std::cell::Cell<bool>>) = Default::default();
        let (h, g) = (heard.clone(), again.clone());
        prog.hook = Some(Box::new(move |parent, name, k, out| {
            if parent != "StarkVerifier" || !name.starts_with("Poseidon") {
                return;
            }
            let mut h = h.borrow_mut();
            if !g.get() && k == h.len() {
                h.push(out.clone())
            } else if g.get() {
                *out = h[k].clone()
            }
        }));
        Text { prog, agg, asked: Default::default(), heard, again }
    }
    fn on(&self, docs: &[Value]) -> Result<crate::circom::Cells, Err> {
        let d = if self.agg {
            let mut o = serde_json::Map::new();
            for (k, d) in ["a", "b"].iter().zip(docs) {
                for (n, v) in d.as_object().unwrap() {
                    o.insert(format!("{k}_{n}"), v.clone());
                }
            }
            let p = l(&docs[0]["publics"]);
            o.insert("publics".into(), json!(p[..p.len().saturating_sub(4)]));
            o.insert("rootC".into(), docs[0]["rootC"].clone());
            Value::Object(o)
        } else {
            docs[0].clone()
        };
        self.prog.run(&|n| {
            self.asked.borrow_mut().insert(n.into());
            super::circuit::inputs(&d, n)
        })
    }
    /// the two documents give the circuit the same inputs
    fn same(&self, a: &Value, b: &Value) -> bool {
        self.asked.borrow().iter().all(|n| {
            let n = if self.agg { n.strip_prefix("a_").unwrap_or(n) } else { n };
            a.get(n) == b.get(n)
        })
    }
}
fn document<H: MerkleTree<ExtendField = F3G> + Default>(p: &StarkProof<H>, k: &H::MTNode, enable: u64) -> Option<Value> {
    guard(|| {
        let mut d = serde_json::to_value(p).unwrap();
        d["rootC"] = serde_json::to_value(k).unwrap();
        d["enable"] = json!(enable);
        d
    })
}
pub trait Render {
    fn render(&self, pil: &PIL, st: &StarkStruct, su: &mut starky::starkinfo::StarkInfo, pr: &mut starky::starkinfo::Program, o: &starky::pil2circom::StarkOption) -> anyhow::Result<String>;
}
impl<F: fields::PrimeField + Default> Render for starky::verif_hooks::digest::ElementDigest<4, F> {
    fn render(&self, pil: &PIL, st: &StarkStruct, su: &mut starky::starkinfo::StarkInfo, pr: &mut starky::starkinfo::Program, o: &starky::pil2circom::StarkOption) -> anyhow::Result<String> {
        starky::pil2circom::pil2circom(pil, self, st, su, pr, o)
    }
}
fn in_circuit<H: MerkleTree<ExtendField = F3G> + Default, T: Transcript>(st: &Value, x: Option<Proved<H>>, ok: bool) -> R
where
    H::MTNode: Render,
{
    let (e, p) = (&st["last"], &st["w"]["p"]);
    let Some(x) = x else { return Ok(()) };
    let Some(pr) = &x.proof else { return Ok(()) };
    let hash = us(&e["cfg"]["hash"]);
    for kind in l(&e["circuits"]) {
        let kind = s(&kind);
        if kind == "agg" && pr.publics.len() < 4 {
            continue;
        }
        let what = || format!("{kind} circuit; config {}", e["cfg"]);
        let opt = starky::pil2circom::StarkOption { enable_input: kind.starts_with("enable"), verkey_input: kind == "norm" || kind == "agg", skip_main: kind == "plain" || kind.starts_with("enable"), agg_stage: kind == "agg" };
        let text = |root: &H::MTNode| -> Option<String> {
            let (mut su, _, after) = setup::<H>(p, &e["cfg"])?;
            guard(|| root.render(&after, &x.st, &mut su.starkinfo, &mut su.program, &opt).map_err(told).ok()).flatten()
        };
        let make = |t: &str| -> Result<Text, Err> {
            let mut prog = match hash {
                0 => super::circuit::goldilocks(),
                h => super::circuit::onchain(h == 2),
            };
            prog.parse(t)?;
            if hash != 0 && opt.skip_main {
                prog.parse("component main {public [publics]} = StarkVerifier();")?;
            }
            Ok(Text::of(prog, opt.agg_stage))
        };
        let Some(t) = text(&x.setup.const_root) else { return bad("circuit_text", format!("no circuit; {}", what())) };
        if let Ok(d) = std::env::var("DRIVER_CIRCOM") {
            std::fs::write(d, &t).unwrap();
        }
        let c = match make(&t) {
            Ok(c) => c,
            Err(m) => return bad("circuit_text", format!("the text is not a circuit: {m:?}; {}", what())),
        };
        let off = kind == "enable0";
        let want = ok || off;
        let doc = |p: &StarkProof<H>, k: &H::MTNode| document(p, k, !off as u64);
        let honest = doc(pr, &x.setup.const_root).unwrap();
        let got = c.on(&[honest.clone(), honest.clone()]);
        match &got {
            Err(Err::Broken(m)) => return bad("circuit_broken", format!("no values for the circuit: {m}; {}", what())),
            Err(Err::Unsat(m)) if want => return bad("circuit_refuses", format!("the circuit refuses an accepted proof: {m}; {}", what())),
            Ok(_) if !want => return bad("circuit_accepts", format!("the circuit accepts a refused proof; {}", what())),
            Ok(o) if o.contains_key("publicsHash") => {
                let n = |x: &Value| super::circuit::inputs(&json!({ "x": x }), "x").unwrap();
                let h = super::circuit::publics_hash(&n(&honest["proverAddr"])[0], &n(&honest["publics"])) % &c.prog.p;
                if o["publicsHash"][0] != h {
                    return bad("circuit_hash", format!("publicsHash is {}, not {h}; {}", o["publicsHash"][0], what()));
                }
            }
            _ => {}
        }
        if off {
            // switched off, it constrains nothing
            for a in &l(&e["alters"]) {
                let Some((q, k)) = altered(&x, pr, a) else { continue };
                let Some(d) = doc(&q, &k) else { continue };
                if let Err(Err::Unsat(m)) = c.on(&[d.clone(), d]) {
                    return bad("circuit_off", format!("the circuit, switched off, refuses a proof altered in {a}: {m}; {}", what()));
                }
            }
            continue;
        }
        if !ok {
            continue;
        }
        for a in &l(&e["alters"]) {
            let Some((q, k)) = altered(&x, pr, a) else { continue };
            let Some(d) = doc(&q, &k) else { continue };
            // without a second or third tree its rows and paths are not among the inputs
            if s(&a["what"]) != "const_root" && c.same(&d, &honest) {
                continue;
            }
            // the root of an absent tree does nothing but move challenges
            let n = &x.setup.starkinfo.map_sectionsN;
            let idle = matches!(s(&a["what"]), "root2" | "root3" | "root_swap")
                && q.root1.eq_node(&pr.root1)
                && q.root4.eq_node(&pr.root4)
                && (n.get("cm2_2ns") == 0 || q.root2.eq_node(&pr.root2))
                && (n.get("cm3_2ns") == 0 || q.root3.eq_node(&pr.root3));
            // without an input for the root of the constants, it is in the text
            let other = if s(&a["what"]) == "const_root" && !opt.verkey_input { text(&k).and_then(|t| make(&t).ok()) } else { None };
            if let Some(o) = &other {
                *o.heard.borrow_mut() = c.heard.borrow().clone();
            }
            let c = other.as_ref().unwrap_or(&c);
            for docs in [[d.clone(), honest.clone()], [honest.clone(), d.clone()]] {
                // with the hash, and with challenges that no alteration changes
                for again in [false, true] {
                    if again && idle {
                        continue;
                    }
                    c.again.set(again);
                    let r = c.on(&docs);
                    c.again.set(false);
                    if r.is_ok() {
                        return bad(if again { "circuit_altered_scripted" } else { "circuit_altered" }, format!("the circuit accepts a proof altered in {a}; {}", what()));
                    }
                }
                if !opt.agg_stage {
                    break;
                }
            }
        }
    }
    Ok(())
}
pub struct M(pub Mode, pub std::path::PathBuf);

/// the program, its columns and the structure as files; what `stark_prove` leaves behind
fn from_files<H: MerkleTree<ExtendField = F3G> + Default, T: Transcript>(dir: &std::path::Path, st: &Value, x: &Option<Proved<H>>, ok: bool) -> R {
    let (e, p) = (&st["last"], &st["w"]["p"]);
    let c = &e["cfg"];
    let y = pil(p, u(&c["names"]));
    if y.l1.is_some() {
        return Ok(());
    }
    let sat = b(&e["sat"]);
    let what = || format!("config {c}");
    let f = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let sts = serde_json::to_string(&stark_struct(u(&p["nb"]), c)).unwrap();
    let put = |n: &str, s: &[u8]| std::fs::write(f(n), s).unwrap();
    put("pil.json", serde_json::to_string(&y.pil).unwrap().as_bytes());
    columns(&y.pil, PolKind::Constant, &p["consts"]).save(&mut std::fs::File::create(f("const")).unwrap()).unwrap();
    columns(&y.pil, PolKind::Commit, &p["cms"]).save(&mut std::fs::File::create(f("cm")).unwrap()).unwrap();
    let run = |sts: &str, k: u64| {
        put("struct.json", sts.as_bytes());
        for n in ["circom", "zkin"] {
            let _ = std::fs::remove_file(f(n));
        }
        guard(|| {
            starky::prove::stark_prove(
                &f("struct.json"), &f("pil.json"), k & 1 == 1, k & 2 == 2, k & 4 == 4, &f("const"), &f("cm"), &f("circom"), &f("zkin"),
                "273030697313060285579891744179749754319274977764",
            )
            .map_err(told)
            .is_ok()
        })
        .unwrap_or(false)
    };
    let zkin = || std::fs::read_to_string(f("zkin")).unwrap_or_default();
    let k = u(&c["q"]) + u(&c["names"]) + u(&p["nb"]);
    let done = run(&sts, k);
    if !sat {
        // a document may exist only with a proof that the verifier accepts
        if done && !ok {
            return bad("files_accepted", format!("a trace that violates {} is proven from files; {}", e["broken"], what()));
        }
        if !done && !zkin().is_empty() {
            return bad("files_left", format!("proving failed and left a proof document; {}", what()));
        }
        return Ok(());
    }
    let Some(x) = x else { return Ok(()) };
    if !ok {
        return Ok(());
    }
    if !done {
        return bad("files_refused", format!("a satisfying trace is not proven from files; {}", what()));
    }
    let Ok(q) = serde_json::from_str::<StarkProof<H>>(&zkin()) else { return bad("files_document", format!("no proof in the document; {}", what())) };
    if !accepted::<H, T>(x, &q, &x.setup.const_root) {
        return bad("files_verdict", format!("the proof in the document is rejected; {}", what()));
    }
    let want: Vec<u64> = lu(&e["pubs"]);
    if q.publics.iter().map(|g| g.as_elements()[0].as_int()).collect::<Vec<_>>() != want {
        return bad("files_publics", format!("public values {:?}, of the trace {want:?}", q.publics));
    }
    let circom = std::fs::read_to_string(f("circom")).unwrap_or_default();
    // with skip_main the verifier itself is the main component of the Goldilocks text; the others have none
    let main = circom.contains("= Main()");
    if main != (k & 2 == 0) || !circom.contains("template StarkVerifier") {
        return bad("files_circom", format!("verifier text of {} bytes, main component {main}; {}", circom.len(), what()));
    }
    // what cannot be the files of this program
    let cut = |n: &str| {
        let d = std::fs::read(f(n)).unwrap();
        put(n, &d[..d.len() - 8]);
        let r = run(&sts, k);
        put(n, &d);
        r
    };
    for n in ["const", "cm"] {
        if std::fs::metadata(f(n)).unwrap().len() > 0 && cut(n) {
            return bad("files_short", format!("proven with a {n} file that lacks its last value; {}", what()));
        }
    }
    for s in [sts.replace("\"GL\"", "\"XX\"").replace("\"BN128\"", "\"bn128\"").replace("\"BLS12381\"", "\"\""), sts.replace("nQueries", "queries")] {
        if run(&s, k) {
            return bad("files_struct", format!("proven with the structure {s}"));
        }
    }
    Ok(())
}

fn ints(p: &[F3G]) -> Vec<Vec<u64>> {
    p.iter().map(|x| ungl(&x.as_elements())).collect()
}
impl M {
    fn go<H: MerkleTree<ExtendField = F3G> + Default, T: Transcript>(&self, st: &Value) -> R
    where
        H::MTNode: Render,
    {
        let (e, p) = (&st["last"], &st["w"]["p"]);
        let sat = b(&e["sat"]);
        let what = || format!("config {}", e["cfg"]);
        let (x, said) = stage(None, || prove::<H, Tx<T>>(p, &e["cfg"]));
        let (ok, heard) = stage(None, || x.as_ref().map_or(false, |x| x.proof.as_ref().map_or(false, |p| accepted::<H, Tx<T>>(x, p, &x.setup.const_root))));
        match self.0 {
            Mode::Circuit => in_circuit::<H, T>(st, x, ok)?,
            Mode::Files => from_files::<H, T>(&self.1, st, &x, ok)?,
            Mode::Complete => {
                if !sat {
                    return Ok(());
                }
                let Some(x) = x else { return bad("setup", format!("setup refuses a program; {}", what())) };
                let Some(pr) = &x.proof else { return bad("prove", format!("the prover refuses a satisfying trace; {}", what())) };
                if !ok {
                    return bad("rejected", format!("the proof of a satisfying trace is rejected; {}", what()));
                }
                let want: Vec<u64> = lu(&e["pubs"]);
                let got = ints(&pr.publics);
                if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g[0] != *w || g[1..].iter().any(|z| *z != 0)) {
                    return bad("publics", format!("public values {got:?}, of the trace {want:?}"));
                }
            }
            Mode::Sound => {
                if !sat && ok {
                    return bad("accepted", format!("a proof of a trace that violates {} is accepted; {}", e["broken"], what()));
                }
                if !ok || !sat {
                    return Ok(());
                }
                let x = x.unwrap();
                let pr = x.proof.as_ref().unwrap();
                let want = talk(e, pr);
                for (who, got) in [("prover", &said), ("verifier", &heard)] {
                    if *got != want {
                        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                        return bad(
                            &format!("talk_{who}"),
                            format!("the {who} of {} messages says {:?} at {i}, not {:?}; {}", want.len(), got.get(i), want.get(i), what()),
                        );
                    }
                }
                let alters = l(&e["alters"]);
                for a in &alters {
                    if let Some((q, k)) = altered(&x, pr, a) {
                        if accepted::<H, T>(&x, &q, &k) {
                            return bad(&format!("altered_{}", s(&a["what"])), format!("a proof altered in {} is accepted; {}", a, what()));
                        }
                    }
                }
                let Some(seed) = alters.first().map(|a| u(&a["c"])) else { return Ok(()) };
                // with challenges that no alteration can change
                let (x, _) = stage(Some(Script::of(seed)), || prove::<H, Tx<T>>(p, &e["cfg"]));
                let x = x.unwrap();
                let Some(pr) = x.proof.as_ref() else { return bad("prove_scripted", what()) };
                let ok = |q: &StarkProof<H>, k: &H::MTNode| stage(Some(Script::of(seed)), || accepted::<H, Tx<T>>(&x, q, k)).0;
                if !ok(pr, &x.setup.const_root) {
                    return bad("rejected_scripted", what());
                }
                for a in &alters {
                    if let Some((q, k)) = altered(&x, pr, a) {
                        if ok(&q, &k) {
                            return bad(&format!("altered_{}_scripted", s(&a["what"])), format!("a proof altered in {} is accepted; {}", a, what()));
                        }
                    }
                }
            }
            Mode::Json => {
                let Some(x) = x else { return Ok(()) };
                let Some(pr) = &x.proof else { return Ok(()) };
                let read = |p: &StarkProof<H>| guard(|| serde_json::from_str::<StarkProof<H>>(&serde_json::to_string(p).unwrap()).unwrap());
                let Some(q) = read(pr) else { return bad("json_read", format!("a proof is not read from its document; {}", what())) };
                let d = super::proof_json::differ(pr, &q);
                if !d.is_empty() {
                    return bad("json_differs", format!("read from its document a proof differs in {}; {}", d.join(", "), what()));
                }
                if accepted::<H, T>(&x, &q, &x.setup.const_root) != ok {
                    return bad("json_verdict", format!("accepted: {ok}, but not when read from its document; {}", what()));
                }
                for a in &l(&e["alters"]) {
                    if let Some((q, k)) = altered(&x, pr, a) {
                        let verdict = accepted::<H, T>(&x, &q, &k);
                        // a malformed one may be refused
                        if read(&q).map_or(false, |r| accepted::<H, T>(&x, &r, &k)) != verdict {
                            return bad("json_verdict", format!("altered in {a}: accepted: {verdict}, but not when read from its document; {}", what()));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        if !s(&e["op"]).starts_with("prove") {
            return Ok(());
        }
        let tall;
        let st = if u(&e["cfg"]["tall"]) > 0 {
            tall = repeated(st, u(&e["cfg"]["tall"]));
            &tall
        } else {
            st
        };
        match us(&e["cfg"]["hash"]) {
            0 => self.go::<MerkleTreeGL, TranscriptGL>(st),
            1 => self.go::<MerkleTreeBN128, TranscriptBN128>(st),
            _ => self.go::<MerkleTreeBLS12381, TranscriptBLS128>(st),
        }
    }
}
