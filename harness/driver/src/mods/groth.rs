//! spec/groth.qnt on `CircomCircuit` of `algebraic` and `algebraic_gpu`, and on `groth16` over bellperson
use super::poseidon::un;
use super::r1cs::{gpu::un as gun, Bls};
use super::{wasm, witness};
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use bellperson::groth16::{Parameters, VerifyingKey};
use blstrs::{Bls12, Scalar};
use groth16::api;
use num_bigint::BigInt;
use serde_json::{json, Value};

const PRIME: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
type Terms = Vec<(bool, usize, BigInt)>;

/// a constraint system that writes down what it is told
#[derive(Default)]
struct Rec {
    values: bool,
    n: [usize; 2],
    known: [Vec<BigInt>; 2],
    cons: Vec<[Terms; 3]>,
}
impl Rec {
    fn new(values: bool, off: usize) -> Self {
        Rec { values, n: [1, off], known: [vec![1.into()], vec![0.into(); off]], cons: vec![] }
    }
    fn add(&mut self, aux: bool, v: Option<BigInt>) -> usize {
        let k = aux as usize;
        self.n[k] += 1;
        self.known[k].extend(v);
        self.n[k] - 1
    }
    /// whether an assignment satisfies everything; None: a variable nobody allocated is used
    fn holds(&self, known: &[Vec<BigInt>; 2], p: &BigInt) -> Option<bool> {
        let mut ok = true;
        for c in &self.cons {
            let mut v = vec![];
            for t in c {
                let mut x = BigInt::from(0);
                for (aux, i, k) in t {
                    if *i >= self.n[*aux as usize] {
                        return None;
                    }
                    x += known[*aux as usize].get(*i)? * k;
                }
                v.push(x % p);
            }
            ok &= (&v[0] * &v[1] - &v[2]) % p == BigInt::from(0);
        }
        Some(ok)
    }
}
mod cpu {
    use super::*;
    use algebraic::bellman_ce::{pairing::Engine, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
    use starky::verif_hooks::field_bls12381::Fr;
    impl Engine for Bls {
        type Fq = Fr;
    }
    pub fn fr(x: &BigInt) -> Fr {
        algebraic::PrimeField::from_str(&x.to_string()).unwrap()
    }
    fn terms(l: LinearCombination<Bls>) -> Terms {
        l.0.iter()
            .map(|(v, c)| match v.get_unchecked() {
                Index::Input(i) => (false, i, un(c)),
                Index::Aux(i) => (true, i, un(c)),
            })
            .collect()
    }
    impl ConstraintSystem<Bls> for Rec {
        fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.values { Some(un(&f()?)) } else { None };
            Ok(Variable::new_unchecked(Index::Aux(self.add(true, v))))
        }
        fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.values { Some(un(&f()?)) } else { None };
            Ok(Variable::new_unchecked(Index::Input(self.add(false, v))))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<Bls>) -> LinearCombination<Bls>,
            LB: FnOnce(LinearCombination<Bls>) -> LinearCombination<Bls>,
            LC: FnOnce(LinearCombination<Bls>) -> LinearCombination<Bls>,
        {
            let z = LinearCombination::zero;
            self.cons.push([terms(a(z())), terms(b(z())), terms(c(z()))]);
        }
    }
}
mod dev {
    use super::*;
    use bellperson::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
    pub fn fr(x: &BigInt) -> Scalar {
        ff::PrimeField::from_str_vartime(&x.to_string()).unwrap()
    }
    fn terms(l: LinearCombination<Scalar>) -> Terms {
        l.iter()
            .map(|(v, c)| match v.get_unchecked() {
                Index::Input(i) => (false, i, gun(c)),
                Index::Aux(i) => (true, i, gun(c)),
            })
            .collect()
    }
    impl ConstraintSystem<Scalar> for Rec {
        type Root = Self;
        fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<Scalar, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.values { Some(gun(&f()?)) } else { None };
            Ok(Variable::new_unchecked(Index::Aux(self.add(true, v))))
        }
        fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<Scalar, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            let v = if self.values { Some(gun(&f()?)) } else { None };
            Ok(Variable::new_unchecked(Index::Input(self.add(false, v))))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>,
            LB: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>,
            LC: FnOnce(LinearCombination<Scalar>) -> LinearCombination<Scalar>,
        {
            let z = LinearCombination::zero;
            self.cons.push([terms(a(z())), terms(b(z())), terms(c(z()))]);
        }
        fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
        fn pop_namespace(&mut self) {}
        fn get_root(&mut self) -> &mut Self {
            self
        }
    }
}

type Lcs = Vec<(usize, BigInt)>;
fn cons(c: &Value) -> Vec<[Lcs; 3]> {
    let lc = |v: &Value| -> Lcs { l(v).iter().map(|t| (us(l(t)[0]), big(l(t)[1]))).collect() };
    l(&c["cons"]).iter().map(|x| [lc(&x["a"]), lc(&x["b"]), lc(&x["c"])]).collect()
}
macro_rules! circuit {
    ($cr:ident, $m:ident, $c:expr, $cons:expr, $wit:expr, $map:expr, $off:expr) => {{
        let (out, inp, n) = (us(&$c["pubOut"]), us(&$c["pubIn"]), l(l(&$c["ws"])[0]).len());
        let lc = |t: &Lcs| t.iter().map(|(i, k)| (*i, $m::fr(k))).collect::<Vec<_>>();
        let wit: Option<&Vec<BigInt>> = $wit;
        $cr::circom_circuit::CircomCircuit {
            r1cs: $cr::circom_circuit::R1CS {
                num_inputs: 1 + out + inp,
                num_aux: n - 1 - out - inp,
                num_variables: n,
                num_outputs: out,
                constraints: $cons.iter().map(|x| (lc(&x[0]), lc(&x[1]), lc(&x[2]))).collect(),
                custom_gates: vec![],
                custom_gates_uses: vec![],
            },
            witness: wit.map(|w| w.iter().map($m::fr).collect()),
            wire_mapping: $map,
            aux_offset: $off,
        }
    }};
}

/// a small system of spec/tla/Plonk.tla, its numbers modulo the field order
fn small(e: &Value, p: &BigInt) -> Value {
    fn num(v: &Value, p: &BigInt) -> Value {
        match v {
            Value::Array(a) => a.iter().map(|x| num(x, p)).collect(),
            Value::Object(o) => o.iter().map(|(k, x)| (k.clone(), num(x, p))).collect::<serde_json::Map<_, _>>().into(),
            Value::Number(n) => {
                let x: BigInt = n.to_string().parse().unwrap();
                json!({"#bigint": (((x % p) + p) % p).to_string()})
            }
            v => v.clone(),
        }
    }
    let mut e = num(e, p);
    let w = e["circ"]["w"].as_array().unwrap().clone();
    let n = 1 + us(&e["circ"]["pubOut"]) + us(&e["circ"]["pubIn"]);
    e["circ"]["ws"] = json!([w]);
    e["off"] = json!({"#bigint": "0"});
    e["map"] = json!([]);
    e["inp"] = json!(w[..n]);
    e["aux"] = json!(w[n..]);
    e["pubs"] = json!(w[1..n]);
    e["wit"] = json!(w);
    e
}

pub struct Circuit;
impl Module for Circuit {
    fn step(&mut self, st: &Value) -> R {
        let p: BigInt = PRIME.parse().unwrap();
        let e = &match s(&st["last"]["op"]) {
            "synthesize" => st["last"].clone(),
            "convert" => small(&st["last"], &p),
            _ => return Ok(()),
        };
        let c = &e["circ"];
        let off = us(&e["off"]);
        let wit = lbig(&e["wit"]);
        let map: Option<Vec<usize>> = if l(&e["map"]).is_empty() { None } else { Some(lu(&e["map"]).iter().map(|x| *x as usize).collect()) };
        let want = [lbig(&e["inp"]), [vec![BigInt::from(0); off], lbig(&e["aux"])].concat()];
        let n = want[0].len();
        let all = cons(c);
        let mut sets: Vec<Vec<usize>> = vec![(0..all.len()).collect()];
        sets.extend((all.len().saturating_sub(3)..all.len()).map(|i| vec![i]));
        for which in sets {
            let some: Vec<[Lcs; 3]> = which.iter().map(|i| all[*i].clone()).collect();
            for values in [true, false] {
                let w = if values { Some(&wit) } else { None };
                let (mut a, mut g) = (Rec::new(values, off), Rec::new(values, off));
                let ra = guard(|| algebraic::bellman_ce::Circuit::synthesize(circuit!(algebraic, cpu, c, some, w, map.clone(), off), &mut a).is_ok());
                let rg = guard(|| bellperson::Circuit::synthesize(circuit!(algebraic_gpu, dev, c, some, w, map.clone(), off), &mut g).is_ok());
                for (name, r, x) in [("algebraic", ra, a), ("algebraic-gpu", rg, g)] {
                    if r != Some(true) {
                        return bad("refused", format!("{name}: {} fails", if values { "proving" } else { "setting up" }));
                    }
                    if x.n != [n, want[1].len()] {
                        return bad("variables", format!("{name}: {:?} variables, not {:?}", x.n, [n, want[1].len()]));
                    }
                    if values && x.known != want {
                        return bad("values", format!("{name}: the variables are given {:?}, not {want:?}", x.known));
                    }
                    for alt in l(&e["alts"]) {
                        let v = lbig(&alt["w"]);
                        let known = [v[..n].to_vec(), [vec![BigInt::from(0); off], v[n..].to_vec()].concat()];
                        let ok = which.iter().all(|i| b(l(&alt["ok"])[*i]));
                        match x.holds(&known, &p) {
                            None => return bad("variables", format!("{name}: a variable is used that is not allocated")),
                            Some(got) if got != ok => {
                                return bad(
                                    if got { "weaker" } else { "stronger" },
                                    format!("{name}: assignment {v:?}: constraints {:?} hold: {ok}; the circuit's {:?} hold: {got}", some, x.cons),
                                )
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        let pubs = lbig(&e["pubs"]);
        let want = json!(pubs.iter().map(|x| x.to_string()).collect::<Vec<_>>());
        let w = Some(&wit);
        let a: algebraic::circom_circuit::CircomCircuit<Bls> = circuit!(algebraic, cpu, c, all, w, map.clone(), off);
        let g = circuit!(algebraic_gpu, dev, c, all, w, map.clone(), off);
        let got = [
            ("algebraic", guard(|| a.get_public_inputs().map(|v| v.iter().map(un).collect::<Vec<_>>())).flatten(), guard(|| a.get_public_inputs_json())),
            ("algebraic-gpu", guard(|| g.get_public_inputs().map(|v| v.iter().map(gun).collect::<Vec<_>>())).flatten(), guard(|| g.get_public_inputs_json())),
        ];
        for (name, v, j) in got {
            if v.as_ref() != Some(&pubs) {
                return bad("public", format!("{name}: the public inputs are {v:?}, not {pubs:?}"));
            }
            if j.as_ref().and_then(|j| serde_json::from_str::<Value>(j).ok()) != Some(want.clone()) {
                return bad("public_json", format!("{name}: the public inputs are written {j:?}, not {want}"));
            }
        }
        Ok(())
    }
}

/// a key in memory, beside the files
struct Key {
    direct: Option<(Parameters<Bls12>, VerifyingKey<Bls12>)>,
}
pub struct Work {
    dir: String,
    keys: Vec<Key>,
}
impl Work {
    pub fn new(d: &str) -> Self {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let dir = format!("{d}/groth-{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        Work { dir, keys: vec![] }
    }
    fn path(&self, n: &str, i: usize) -> String {
        format!("{}/{n}-{i}", self.dir)
    }
    fn json(&self, n: &str, i: usize) -> Value {
        serde_json::from_str(&std::fs::read_to_string(self.path(n, i)).unwrap()).unwrap()
    }
}
impl Drop for Work {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.dir).ok();
    }
}
fn number(v: &Value) -> Option<BigInt> {
    let t = v.as_str()?;
    match t.strip_prefix("0x") {
        Some(h) => BigInt::parse_bytes(h.as_bytes(), 16),
        None => t.parse().ok(),
    }
}
fn fp(x: blstrs::Fp) -> BigInt {
    BigInt::from_bytes_be(num_bigint::Sign::Plus, &x.to_bytes_be())
}
fn g1(p: &blstrs::G1Affine) -> Vec<BigInt> {
    vec![fp(p.x()), fp(p.y())]
}
fn g2(p: &blstrs::G2Affine) -> Vec<BigInt> {
    vec![fp(p.x().c0()), fp(p.x().c1()), fp(p.y().c0()), fp(p.y().c1())]
}
/// the numbers of a written point, x before y, the real part first
fn point(v: &Value) -> Option<Vec<BigInt>> {
    let flat: Vec<&Value> = [&v["x"], &v["y"]].into_iter().flat_map(|c| c.as_array().map(|a| a.iter().collect()).unwrap_or(vec![c])).collect();
    flat.into_iter().map(number).collect()
}
fn vk_points(k: &VerifyingKey<Bls12>) -> Vec<(String, Vec<BigInt>)> {
    let mut r = vec![
        ("vk_alpha_1".to_string(), g1(&k.alpha_g1)),
        ("vk_beta_1".into(), g1(&k.beta_g1)),
        ("vk_beta_2".into(), g2(&k.beta_g2)),
        ("vk_gamma_2".into(), g2(&k.gamma_g2)),
        ("vk_delta_1".into(), g1(&k.delta_g1)),
        ("vk_delta_2".into(), g2(&k.delta_g2)),
    ];
    r.extend(k.ic.iter().enumerate().map(|(i, p)| (format!("IC{i}"), g1(p))));
    r
}
fn written_points(v: &Value) -> Vec<(String, Vec<BigInt>)> {
    let mut r: Vec<(String, Vec<BigInt>)> =
        ["vk_alpha_1", "vk_beta_1", "vk_beta_2", "vk_gamma_2", "vk_delta_1", "vk_delta_2"].iter().map(|n| (n.to_string(), point(&v[*n]).unwrap_or_default())).collect();
    r.extend(v["IC"].as_array().unwrap_or(&vec![]).iter().enumerate().map(|(i, p)| (format!("IC{i}"), point(p).unwrap_or_default())));
    r
}
fn fnv(x: &str) -> (u32, u32) {
    let h = x.bytes().fold(0xcbf29ce484222325u64, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3));
    ((h >> 32) as u32, h as u32)
}
/// the numbers of text after `name`, up to the next semicolon
fn after(text: &str, name: &str) -> Option<Vec<BigInt>> {
    let t = text.split(name).nth(1)?.split(';').next()?;
    let t: String = t.replace("uint256(", "(").replace("Pairing.G1Point", "").replace("Pairing.G2Point", "");
    t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(|w| number(&Value::from(w))).collect()
}

impl Module for Work {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (k, p, c) = (us(&e["key"]), us(&e["proof"]), &e["circ"]);
        let hex = b(&e["hex"]);
        std::fs::create_dir_all(&self.dir).unwrap();
        match s(&e["op"]) {
            "init" => Ok(()),
            "setup" => {
                let r1cs = format!("{}.json", self.path("circuit", k));
                let text: Vec<Vec<serde_json::Map<String, Value>>> = cons(c)
                    .iter()
                    .map(|x| {
                        x.iter()
                            .map(|t| {
                                let mut m = std::collections::BTreeMap::<usize, BigInt>::new();
                                t.iter().for_each(|(i, k)| *m.entry(*i).or_default() += k);
                                m.into_iter().map(|(i, k)| (i.to_string(), Value::from((k % PRIME.parse::<BigInt>().unwrap()).to_string()))).collect()
                            })
                            .collect()
                    })
                    .collect();
                std::fs::write(&r1cs, json!({"constraints": text, "nPubInputs": us(&c["pubIn"]), "nOutputs": us(&c["pubOut"]), "nVars": l(l(&c["ws"])[0]).len()}).to_string()).unwrap();
                let (pk_file, vk_file) = (self.path("pk", k), self.path("vk", k));
                let mut key = Key { direct: None };
                if b(&e["direct"]) {
                    let Some(Ok(api::SetupResult::BLS12381(_, pk, vk))) = guard(|| api::groth16_setup_inplace("BLS12381", &r1cs)) else {
                        return bad("setup", "a circuit is refused by the setup in memory".into());
                    };
                    pk.write(std::fs::File::create(&pk_file).unwrap()).unwrap();
                    match guard(|| groth16::json_utils::serialize_vk(&vk, "BLS12381", hex).ok()).flatten() {
                        Some(t) => std::fs::write(&vk_file, t).unwrap(),
                        None => return bad("setup", "a verification key is not written".into()),
                    }
                    key.direct = Some((pk, vk));
                } else if guard(|| api::groth16_setup("BLS12381", &r1cs, &pk_file, &vk_file, hex).is_ok()) != Some(true) {
                    return bad("setup", "a circuit is refused by the setup".into());
                }
                // what the written key says is the key
                let pk = Parameters::<Bls12>::read(std::fs::File::open(&pk_file).unwrap(), true).unwrap();
                let (want, got) = (vk_points(&pk.vk), written_points(&self.json("vk", k)));
                if want != got {
                    return bad("vk_json", format!("the verification key is written {got:?}, not {want:?}"));
                }
                match guard(|| api::read_vk_from_file::<Bls12>(&vk_file).ok()).flatten() {
                    Some(v) if v == pk.vk => {}
                    v => return bad("vk_read", format!("the verification key is read as {v:?}")),
                }
                if pk.vk.ic.len() != 1 + us(&c["pubOut"]) + us(&c["pubIn"]) {
                    return bad("vk_inputs", format!("the key is for {} public inputs", pk.vk.ic.len() - 1));
                }
                self.keys.truncate(k);
                self.keys.push(key);
                Ok(())
            }
            "prove" => {
                let w = lbig(&e["wit"]);
                let program = wasm::Circuit {
                    words: 8,
                    prime: witness::words(&PRIME.parse().unwrap(), 8),
                    version: 2,
                    sizes: true,
                    signals: vec![wasm::Signal { hash: fnv("in"), base: 1, len: 1 }],
                    witness: w.iter().map(|x| witness::words(x, 8)).collect(),
                    equal: vec![],
                };
                let (wasm_file, input) = (format!("{}.wasm", self.path("program", p)), format!("{}.json", self.path("input", p)));
                std::fs::write(&wasm_file, wasm::module(&program)).unwrap();
                std::fs::write(&input, json!({"in": w[1].to_string()}).to_string()).unwrap();
                let r1cs = format!("{}.json", self.path("circuit", k));
                let (pubs, proof) = (self.path("public", p), self.path("proof", p));
                let r = match &self.keys[k].direct {
                    Some((pk, _)) => guard(|| {
                        let circ = algebraic_gpu::circom_circuit::CircomCircuit { r1cs: algebraic_gpu::reader::load_r1cs::<Scalar>(&r1cs), witness: None, wire_mapping: None, aux_offset: 0 };
                        api::groth16_prove_inplace("BLS12381", circ, &wasm_file, pk.clone(), &input, &pubs, &proof, hex).is_ok()
                    }),
                    None => guard(|| api::groth16_prove("BLS12381", &r1cs, &wasm_file, &self.path("pk", k), &input, &pubs, &proof, hex).is_ok()),
                };
                if r != Some(true) {
                    return bad("prove", "no proof is made".into());
                }
                let want = json!(lbig(&e["pubs"]).iter().map(|x| x.to_string()).collect::<Vec<_>>());
                if self.json("public", p) != want {
                    return bad("public", format!("the public inputs are written {}, not {want}", self.json("public", p)));
                }
                let text = std::fs::read_to_string(&proof).unwrap();
                let Some(x) = guard(|| groth16::json_utils::to_proof::<Bls12>(&text)) else { return bad("proof_read", "a written proof is not read".into()) };
                let v = self.json("proof", p);
                let got: Vec<_> = ["pi_a", "pi_b", "pi_c"].iter().map(|n| point(&v[*n]).unwrap_or_default()).collect();
                if got != vec![g1(&x.a), g2(&x.b), g1(&x.c)] {
                    return bad("proof_read", format!("the proof {v} is read as {x:?}"));
                }
                Ok(())
            }
            "verify" => {
                let pubs = lbig(&e["pubs"]);
                let text: Vec<String> = pubs.iter().map(|x| if hex { format!("0x{x:x}") } else { x.to_string() }).collect();
                let (pub_file, proof_file) = (self.path("pub", 9999), self.path("tried", 9999));
                std::fs::write(&pub_file, json!(text).to_string()).unwrap();
                let mut proof = self.json("proof", p);
                let part = us(&e["part"]);
                if part > 0 {
                    let n = ["pi_a", "pi_b", "pi_c"][part - 1];
                    proof[n] = self.json("proof", us(&e["other"]))[n].clone();
                }
                std::fs::write(&proof_file, proof.to_string()).unwrap();
                let mut all = vec![("files", guard(|| api::groth16_verify("BLS12381", &self.path("vk", k), &pub_file, &proof_file).is_ok()) == Some(true))];
                if let Some((_, vk)) = &self.keys[k].direct {
                    all.push(("memory", guard(|| {
                        let x = groth16::json_utils::to_proof::<Bls12>(&proof.to_string());
                        let v = groth16::json_utils::to_public_input(&json!(text).to_string());
                        groth16::groth16::Groth16::<Bls12, algebraic_gpu::circom_circuit::CircomCircuit<Scalar>>::verify_with_processed_vk(vk, &v, &x).ok()
                    }).flatten() == Some(true)));
                }
                for (how, got) in all {
                    if got != b(&e["ok"]) {
                        return bad(
                            if got { "accepted" } else { "rejected" },
                            format!("{how}: proof {p} with part {part} of {}, public inputs {pubs:?}, key {k}: accepted: {got}", us(&e["other"])),
                        );
                    }
                }
                Ok(())
            }
            "contract" => {
                let v = lbig(&e["wit"]);
                let n = (v.len() - 14) / 2;
                let t: Vec<String> = v.iter().map(|x| if hex { format!("0x{:0>64}", format!("{x:x}")) } else { x.to_string() }).collect();
                let p1 = |i: usize| json!({"x": t[i], "y": t[i + 1]});
                let p2 = |i: usize| json!({"x": [t[i], t[i + 1]], "y": [t[i + 2], t[i + 3]]});
                let ic: Vec<Value> = (0..n).map(|i| p1(14 + 2 * i)).collect();
                let vk = json!({"protocol": "groth16", "curve": "BN128", "vk_alpha_1": p1(0), "vk_beta_1": {"x": "11", "y": "12"}, "vk_beta_2": p2(2),
                    "vk_gamma_2": p2(6), "vk_delta_1": {"x": "13", "y": "14"}, "vk_delta_2": p2(10), "IC": ic});
                let (vk_file, file) = (self.path("bn-vk", 0), self.path("verifier", 0));
                std::fs::write(&vk_file, vk.to_string()).unwrap();
                if guard(|| api::generate_verifier(&vk_file, &file).is_ok()) != Some(true) {
                    return bad("contract", "no contract is generated".into());
                }
                let text = std::fs::read_to_string(&file).unwrap();
                let mut want = vec![
                    ("vk.alpha =".to_string(), v[..2].to_vec()),
                    ("vk.beta =".into(), v[2..6].to_vec()),
                    ("vk.gamma =".into(), v[6..10].to_vec()),
                    ("vk.delta =".into(), v[10..14].to_vec()),
                    ("vk.gamma_abc = new Pairing.G1Point[]".into(), vec![n.into()]),
                    ("inputValues = new uint[]".into(), vec![(n - 1).into()]),
                ];
                want.extend((0..n).map(|i| (format!("vk.gamma_abc[{i}] ="), v[14 + 2 * i..16 + 2 * i].to_vec())));
                for (name, x) in want {
                    let got = after(&text, &name);
                    if got.as_ref() != Some(&x) {
                        return bad("contract", format!("the contract has {name} {got:?}, the key {x:?}"));
                    }
                }
                if text.contains("<%") || text.contains(&format!("vk.gamma_abc[{n}] =")) {
                    return bad("contract", "the contract is incomplete or has too many points".into());
                }
                let arg = if n > 1 { format!(", uint[{}] memory input", n - 1) } else { String::new() };
                let head = text.split("function verifyTx(").nth(1).and_then(|t| t.split(')').next()).unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ");
                if head != format!("Proof memory proof{arg}") || (n > 1) != text.contains("inputValues[i] = input[i];") {
                    return bad("contract", format!("the contract takes {head:?} for {} public inputs", n - 1));
                }
                Ok(())
            }
            o => bad("op", o.into()),
        }
    }
}
