//! spec/fri.qnt on `starky::fri`: the prover's and the verifier's half over a scripted transcript, three tree types
use crate::itf::*;
use crate::mods::stark::{other, Same, Said};
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::Fr as FGL;
use serde_json::Value;
use starky::f3g::F3G;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use starky::types::StarkStruct;
use starky::verif_hooks::fri::{FRIProof, Query, FRI};
use std::cell::RefCell;

#[derive(Default)]
struct Stage {
    chal: Vec<Vec<u64>>,
    ys: Vec<usize>,
    at: usize,
    said: Vec<Said>,
}
thread_local! { static STAGE: RefCell<Stage> = Default::default(); }
struct Script;
impl Transcript for Script {
    fn new() -> Self {
        Script
    }
    fn get_field<F: FieldExtension>(&mut self) -> F {
        STAGE.with(|t| {
            let mut t = t.borrow_mut();
            t.said.push(Said::Draw);
            let c = t.chal[t.at].clone();
            t.at += 1;
            F::from_vec(gls(&c))
        })
    }
    fn get_fields1(&mut self) -> anyhow::Result<FGL> {
        anyhow::bail!("no single challenges in FRI")
    }
    fn put(&mut self, es: &[Vec<FGL>]) -> anyhow::Result<()> {
        STAGE.with(|t| t.borrow_mut().said.extend(es.iter().map(|e| Said::Put(ungl(e)))));
        Ok(())
    }
    fn get_permutations(&mut self, n: usize, nbits: usize) -> anyhow::Result<Vec<usize>> {
        STAGE.with(|t| {
            let mut t = t.borrow_mut();
            t.said.push(Said::Positions(n, nbits));
            Ok(t.ys.clone())
        })
    }
}
fn stage<X>(c: &Value, f: impl FnOnce() -> X) -> (X, Vec<Said>) {
    let s = Stage { chal: l(&c["chal"]).iter().map(|x| lu(x)).collect(), ys: lu(&c["ys"]).iter().map(|y| *y as usize).collect(), ..Default::default() };
    STAGE.with(|t| *t.borrow_mut() = s);
    let x = f();
    (x, STAGE.with(|t| std::mem::take(&mut *t.borrow_mut())).said)
}
fn f3(v: &[u64]) -> F3G {
    F3G::from_vec(gls(v))
}
fn three(x: &F3G) -> Vec<u64> {
    let mut v = ungl(&x.as_elements());
    v.resize(3, 0);
    v
}
type Proof<M> = FRIProof<F3G, M>;

struct Case<M: MerkleTree<ExtendField = F3G>> {
    c: Value,
    fri: fn(&Value) -> FRI,
    layers: Vec<Vec<Vec<u64>>>,
    base: M,
    steps: Vec<usize>,
    ys: Vec<usize>,
}
fn fri(c: &Value) -> FRI {
    let st: StarkStruct = serde_json::from_value(serde_json::json!({
        "nBits": u(&c["nb"]), "nBitsExt": u(&c["ext"]), "nQueries": l(&c["ys"]).len(), "verificationHashType": "GL",
        "steps": lu(&c["steps"]).iter().map(|b| serde_json::json!({"nBits": b})).collect::<Vec<_>>(),
    }))
    .unwrap();
    FRI::new(&st)
}
fn tree<M: MerkleTree>(rows: &[Vec<u64>]) -> M {
    let mut t = M::new();
    t.merkelize(gls(&rows.concat()), rows[0].len(), rows.len()).unwrap();
    t
}
impl<M: MerkleTree<ExtendField = F3G>> Case<M> {
    fn new(e: &Value) -> Self {
        let c = e["cfg"].clone();
        let layers: Vec<Vec<Vec<u64>>> = l(&e["layers"]).iter().map(|x| l(x).iter().map(|v| lu(v)).collect()).collect();
        let steps = lu(&c["steps"]).iter().map(|b| *b as usize).collect();
        let ys = lu(&c["ys"]).iter().map(|b| *b as usize).collect();
        Case { base: tree::<M>(&layers[0]), fri, layers, steps, ys, c }
    }
    /// row g of layer i: the values that fold into value g of the next layer
    fn row(&self, i: usize, g: usize) -> Vec<u64> {
        let n = 1 << self.steps[i + 1];
        (0..self.layers[i].len() / n).flat_map(|j| self.layers[i][g + j * n].clone()).collect()
    }
    fn layer_tree(&self, i: usize) -> M {
        tree::<M>(&(0..1 << self.steps[i + 1]).map(|g| self.row(i, g)).collect::<Vec<_>>())
    }
    fn prove(&self) -> (Option<Proof<M>>, Vec<Said>) {
        let pol: Vec<F3G> = self.layers[0].iter().map(|v| f3(v)).collect();
        stage(&self.c, || {
            guard(|| (self.fri)(&self.c).prove::<F3G, M, Script>(&mut Script, &pol, |i| vec![self.base.get_group_proof(i).unwrap()]).ok()).flatten()
        })
    }
    fn verify(&self, p: &Proof<M>) -> (bool, Vec<Said>) {
        let root = self.base.root();
        stage(&self.c, || {
            guard(|| {
                (self.fri)(&self.c)
                    .verify::<F3G, M, Script>(&mut Script, p, |q, i| {
                        if !M::new().verify_group_proof(&root, &q[0].1, i, &q[0].0)? {
                            anyhow::bail!("opening");
                        }
                        Ok(vec![F3G::from_vec(q[0].0.clone())])
                    })
                    .unwrap_or(false)
            })
            .unwrap_or(false)
        })
    }
    /// a proof made of the specification's layers
    fn build(&self) -> Proof<M> {
        let mut p = Proof::<M>::new(self.steps.len());
        for &y in &self.ys {
            p.queries[0].pol_queries.push(vec![self.base.get_group_proof(y).unwrap()]);
        }
        for i in 0..self.steps.len() - 1 {
            let t = self.layer_tree(i);
            p.queries[i + 1].root = t.root();
            for &y in &self.ys {
                p.queries[i + 1].pol_queries.push(vec![t.get_group_proof(y % (1 << self.steps[i + 1])).unwrap()]);
            }
        }
        p.last = self.layers.last().unwrap().iter().map(|v| f3(v)).collect();
        p
    }
    fn talk(&self, p: &Proof<M>) -> Vec<Said> {
        let mut out = vec![];
        for i in 0..self.steps.len() {
            out.push(Said::Draw);
            if i + 1 < self.steps.len() {
                out.push(Said::Put(ungl(p.queries[i + 1].root.as_elements())));
            } else {
                out.extend(p.last.iter().flat_map(|x| three(x)).map(|v| Said::Put(vec![v])));
            }
        }
        out.push(Said::Positions(self.ys.len(), self.steps[0]));
        out
    }
}
fn copy<M: MerkleTree<ExtendField = F3G>>(p: &Proof<M>) -> Proof<M> {
    FRIProof { queries: p.queries.iter().map(|q| Query { pol_queries: q.pol_queries.clone(), root: q.root }).collect(), last: p.last.clone() }
}
fn altered<M: MerkleTree<ExtendField = F3G>>(p: &Proof<M>, e: &Value) -> Option<Proof<M>> {
    let (what, a, b, c) = (s(&e["what"]), us(&e["a"]), us(&e["b"]), u(&e["c"]));
    let mut q = copy(p);
    let ix = |v: usize, n: usize| if n == 0 { None } else { Some(v % n) };
    let add = |x: &F3G, k: usize| {
        let mut v = three(x);
        v[k % 3] = ((v[k % 3] as u128 + c as u128) % P as u128) as u64;
        f3(&v)
    };
    let (layers, n, nq) = (p.queries.len(), p.last.len(), p.queries[0].pol_queries.len());
    match what {
        "root" => {
            let i = 1 + ix(a, layers - 1)?;
            q.queries[i].root = other(&p.queries[i].root, b as u64, c)
        }
        "root_swap" => {
            let (i, j) = (1 + ix(a, layers - 1)?, 1 + ix(b, layers - 1)?);
            if p.queries[i].root.eq_node(&p.queries[j].root) {
                return None;
            }
            (q.queries[i].root, q.queries[j].root) = (p.queries[j].root, p.queries[i].root);
        }
        "row" => {
            let r = &mut q.queries[a % layers].pol_queries[b % nq][0].0;
            let i = c as usize % r.len();
            r[i] = r[i] + gl(c)
        }
        "row_swap" => {
            let r = &mut q.queries[a % layers].pol_queries[b % nq][0].0;
            let (i, j) = (c as usize % r.len(), (c / 1000) as usize % r.len());
            if r[i] == r[j] {
                return None;
            }
            r.swap(i, j)
        }
        "path" => {
            let y = &mut q.queries[a % layers].pol_queries[b % nq][0].1;
            let i = ix(c as usize, y.len())?;
            let m = y[i].len();
            let j = ix((c / 1000) as usize, m)?;
            for j in if m == 16 { vec![j, (j + 1) % m] } else { vec![j] } {
                y[i][j] = M::to_basefield(&other(&M::from_basefield(&y[i][j]), 0, c))[0].clone();
            }
        }
        "last" => q.last[a % n] = add(&p.last[a % n], b),
        "last_shift" => q.last = p.last.iter().map(|x| add(x, b)).collect(),
        "last_swap" => {
            if three(&p.last[a % n]) == three(&p.last[b % n]) {
                return None;
            }
            q.last.swap(a % n, b % n)
        }
        "last_drop" => {
            q.last.pop();
        }
        "last_double" => q.last.extend(p.last.iter()),
        "query_swap" => {
            let t = &mut q.queries[a % layers].pol_queries;
            if t[b % nq] == t[c as usize % nq] {
                return None;
            }
            t.swap(b % nq, c as usize % nq)
        }
        "query_drop" => {
            q.queries[a % layers].pol_queries.pop();
        }
        o => panic!("alteration {o}"),
    }
    Some(q)
}
fn go<M: MerkleTree<ExtendField = F3G>>(e: &Value) -> R {
    let x = Case::<M>::new(e);
    let (op, ok) = (s(&e["op"]), b(&e["ok"]));
    let cfg = format!("bits {} of {}, layers {:?}, positions {:?}", u(&e["cfg"]["nb"]), u(&e["cfg"]["ext"]), x.steps, x.ys);
    let built = x.build();
    if op != "forged" {
        let (p, said) = x.prove();
        let Some(p) = p else { return bad("prove", format!("the prover refuses; {cfg}")) };
        let want = x.talk(&built);
        if said != want {
            return bad("talk_prover", format!("the prover says {said:?}, not {want:?}; {cfg}"));
        }
        let rows = l(&e["rows"]);
        for (i, r) in rows.iter().enumerate() {
            for (q, r) in l(r).iter().enumerate() {
                let want: Vec<u64> = l(r).iter().flat_map(|v| lu(v)).collect();
                if ungl(&p.queries[i + 1].pol_queries[q][0].0) != want {
                    return bad("row", format!("query {q} opens another row of layer {i}; {cfg}"));
                }
            }
        }
        if !p.last.iter().map(three).eq(x.layers.last().unwrap().iter().cloned()) || p.queries != built.queries {
            return bad("proof", format!("another proof; {cfg}"));
        }
        let (got, heard) = x.verify(&p);
        if heard != want {
            return bad("talk_verifier", format!("the verifier says {heard:?}, not {want:?}; {cfg}"));
        }
        if got != ok {
            return bad(if ok { "rejected" } else { "accepted" }, format!("{op}: a polynomial {} is {}; {cfg}", if ok { "within the bound" } else { "beyond the bound" }, if got { "accepted" } else { "rejected" }));
        }
        for a in l(&e["alters"]) {
            if let Some(q) = altered(&p, a) {
                if x.verify(&q).0 {
                    return bad(&format!("altered_{}", s(&a["what"])), format!("a proof altered in {a} is accepted; {cfg}"));
                }
            }
        }
    }
    if x.verify(&built).0 != ok {
        return bad(&format!("built_{op}"), format!("a proof made of the specified layers is {}; {cfg}", if ok { "rejected" } else { "accepted" }));
    }
    Ok(())
}
pub struct M;
impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        if s(&e["op"]) == "init" {
            return Ok(());
        }
        match us(&e["cfg"]["hash"]) {
            0 => go::<MerkleTreeGL>(e),
            1 => go::<MerkleTreeBN128>(e),
            _ => go::<MerkleTreeBLS12381>(e),
        }
    }
}
