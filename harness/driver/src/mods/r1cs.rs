//! spec/r1cs.qnt on the readers of `algebraic` and `algebraic_gpu`
use super::poseidon::un;
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use algebraic::bellman_ce::ScalarEngine;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::io::Cursor;

macro_rules! engine {
    ($n:ident, $fr:ty) => {
        #[derive(Clone, Copy, Debug)]
        pub struct $n;
        impl ScalarEngine for $n {
            type Fr = $fr;
        }
    };
}
engine!(Bn, starky::field_bn128::Fr);
engine!(Bls, starky::verif_hooks::field_bls12381::Fr);
engine!(Gl, fields::field_gl::Fr);

/// the fields of the GPU variant, over the crate `ff`; it serves the pairing curves only
pub mod gpu {
    macro_rules! field {
        ($m:ident, $n:ident, $p:literal, $g:literal, $l:literal) => {
            mod $m {
                use ff::PrimeField;
                #[derive(PrimeField)]
                #[PrimeFieldModulus = $p]
                #[PrimeFieldGenerator = $g]
                #[PrimeFieldReprEndianness = "little"]
                pub struct $n([u64; $l]);
            }
            pub use $m::$n;
        };
    }
    field!(bn, Bn, "21888242871839275222246405745257275088548364400416034343698204186575808495617", "5", 4);
    field!(bls, Bls, "52435875175126190479447740508185965837690552500527637822603658699938581184513", "7", 4);
    pub fn un<F: ff::PrimeField>(x: &F) -> num_bigint::BigInt {
        num_bigint::BigInt::from_bytes_le(num_bigint::Sign::Plus, x.to_repr().as_ref())
    }
}

pub struct M {
    dir: String,
}
impl M {
    pub fn new(d: &str) -> Self {
        M { dir: d.into() }
    }
}

type Cons = Vec<Vec<Vec<(u64, BigInt)>>>;
/// what a reader returned, as plain numbers
#[derive(Debug, PartialEq, Clone)]
struct File {
    version: u64,
    field_size: u64,
    wires: u64,
    out: u64,
    inp: u64,
    prv: u64,
    labels: u64,
    n: u64,
    custom: bool,
    cons: Cons,
    map: Vec<u64>,
    gates: Vec<(String, Vec<BigInt>)>,
    uses: Vec<(u64, Vec<u64>)>,
}

fn terms(v: &Value) -> Vec<(u64, BigInt)> {
    l(v).iter().map(|t| (u(l(t)[0]), big(l(t)[1]))).collect()
}
fn want(e: &Value) -> File {
    let y = &e["sys"];
    let name = |v: &Value| String::from_utf8(lu(v).iter().map(|x| *x as u8).collect()).unwrap();
    File {
        version: u(&y["version"]),
        field_size: if u(&y["f"]) == 2 { 8 } else { 32 },
        wires: u(&y["nWires"]),
        out: u(&y["pubOut"]),
        inp: u(&y["pubIn"]),
        prv: u(&y["prvIn"]),
        labels: u(&y["labels"]),
        n: l(&y["cons"]).len() as u64,
        custom: b(&y["custom"]),
        cons: l(&y["cons"]).iter().map(|c| l(c).iter().map(|t| terms(t)).collect()).collect(),
        map: lu(&y["map"]),
        gates: l(&y["gates"]).iter().map(|g| (name(&g["name"]), lbig(&g["params"]))).collect(),
        uses: l(&y["uses"]).iter().map(|g| (u(&g["id"]), lu(&g["signals"]))).collect(),
    }
}

macro_rules! plain {
    ($f:expr, $un:path) => {{
        let f = $f;
        let lc = |x: &[(usize, _)]| -> Vec<(u64, BigInt)> { x.iter().map(|(w, c)| (*w as u64, $un(c))).collect() };
        File {
            version: f.version as u64,
            field_size: f.header.field_size as u64,
            wires: f.header.n_wires as u64,
            out: f.header.n_pub_out as u64,
            inp: f.header.n_pub_in as u64,
            prv: f.header.n_prv_in as u64,
            labels: f.header.n_labels,
            n: f.header.n_constraints as u64,
            custom: f.header.use_custom_gates,
            cons: f.constraints.iter().map(|c| vec![lc(&c.0), lc(&c.1), lc(&c.2)]).collect(),
            map: f.wire_mapping.clone(),
            gates: f.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.iter().map(|p| $un(p)).collect())).collect(),
            uses: f.custom_gates_uses.iter().map(|g| (g.id, g.signals.clone())).collect(),
        }
    }};
}
/// the system a prover is given: (inputs, aux, variables, outputs, constraints, gates, uses)
type Sys = (u64, u64, u64, u64, Cons, Vec<(String, Vec<BigInt>)>, Vec<(u64, Vec<u64>)>);
macro_rules! system {
    ($r:expr, $un:path) => {{
        let r = $r;
        let lc = |x: &[(usize, _)]| -> Vec<(u64, BigInt)> { x.iter().map(|(w, c)| (*w as u64, $un(c))).collect() };
        (
            r.num_inputs as u64,
            r.num_aux as u64,
            r.num_variables as u64,
            r.num_outputs as u64,
            r.constraints.iter().map(|c| vec![lc(&c.0), lc(&c.1), lc(&c.2)]).collect::<Cons>(),
            r.custom_gates.iter().map(|g| (g.template_name.clone(), g.parameters.iter().map(|p| $un(p)).collect::<Vec<BigInt>>())).collect::<Vec<_>>(),
            r.custom_gates_uses.iter().map(|g| (g.id, g.signals.clone())).collect::<Vec<_>>(),
        )
    }};
}

fn cpu<E: ScalarEngine>(x: &[u8]) -> (Option<File>, Option<(Sys, Vec<usize>)>) {
    let f = guard(|| algebraic::r1cs_file::from_reader::<_, E>(Cursor::new(x)).ok()).flatten();
    let r = guard(|| algebraic::reader::load_r1cs_from_bin::<_, E>(Cursor::new(x)));
    (f.map(|f| plain!(f, un)), r.map(|(r, m)| (system!(r, un), m)))
}
fn gpu_read<E: ff::PrimeField>(x: &[u8]) -> (Option<File>, Option<(Sys, Vec<usize>)>) {
    let f = guard(|| algebraic_gpu::r1cs_file::from_reader::<_, E>(Cursor::new(x)).ok()).flatten();
    let r = guard(|| algebraic_gpu::reader::load_r1cs_from_bin::<_, E>(Cursor::new(x)));
    (f.map(|f| plain!(f, gpu::un)), r.map(|(r, m)| (system!(r, gpu::un), m)))
}
fn short(x: &str) -> String {
    x.chars().take(600).collect()
}
fn sorted(c: &Cons) -> Cons {
    c.iter()
        .map(|c| {
            c.iter()
                .map(|t| {
                    let mut t = t.clone();
                    t.sort();
                    t
                })
                .collect()
        })
        .collect()
}

impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let (f, ok, fault) = (us(&e["f"]), b(&e["ok"]), s(&e["fault"]));
        let x: Vec<u8> = lu(&e["bytes"]).iter().map(|x| *x as u8).collect();
        let wit = lbig(&e["wit"]);
        let path = |n: &str| format!("{}/{:?}-{n}", self.dir, std::thread::current().id()).replace(['(', ')'], "");
        match s(&e["op"]) {
            "r1cs" => {
                let w = want(e);
                let a = match f {
                    0 => cpu::<Bn>(&x),
                    1 => cpu::<Bls>(&x),
                    _ => cpu::<Gl>(&x),
                };
                let mut all = vec![("algebraic", a)];
                match f {
                    0 => all.push(("algebraic-gpu", gpu_read::<gpu::Bn>(&x))),
                    1 => all.push(("algebraic-gpu", gpu_read::<gpu::Bls>(&x))),
                    _ => {}
                }
                for (n, (file, sys)) in all {
                    if !ok {
                        if file.is_some() || sys.is_some() {
                            return bad(&format!("{fault}_accepted"), format!("{n}: a file with fault {fault} is read as {}", short(&format!("{file:?}"))));
                        }
                        continue;
                    }
                    let Some(file) = file else { return bad("refused", format!("{n}: a well-formed file is refused")) };
                    if file != w {
                        return bad("decode", format!("{n}: read {}, written {}", short(&format!("{file:?}")), short(&format!("{w:?}"))));
                    }
                    let Some((sys, m)) = sys else { return bad("refused", format!("{n}: a well-formed file is refused")) };
                    let inputs = 1 + w.out + w.inp;
                    let ws = (inputs, w.wires - inputs, w.wires, w.out, w.cons.clone(), w.gates.clone(), w.uses.clone());
                    if sys != ws || m.iter().map(|x| *x as u64).collect::<Vec<_>>() != w.map {
                        return bad("system", format!("{n}: the system is {}", short(&format!("{sys:?}"))));
                    }
                }
                Ok(())
            }
            "wtns" => {
                let p = path("w.wtns");
                std::fs::write(&p, &x).unwrap();
                let r: Vec<(&str, Option<Vec<BigInt>>)> = vec![
                    ("algebraic", guard(|| algebraic::reader::load_witness_from_array::<Bn>(x.clone()).ok()).flatten().map(|v| v.iter().map(un).collect())),
                    ("algebraic file", guard(|| algebraic::reader::load_witness_from_file::<Bn>(&p)).map(|v| v.iter().map(un).collect())),
                    ("algebraic-gpu", guard(|| algebraic_gpu::reader::load_witness_from_array::<gpu::Bn>(x.clone()).ok()).flatten().map(|v| v.iter().map(gpu::un).collect())),
                    ("algebraic-gpu file", guard(|| algebraic_gpu::reader::load_witness_from_file::<gpu::Bn>(&p)).map(|v| v.iter().map(gpu::un).collect())),
                ];
                std::fs::remove_file(&p).ok();
                for (n, r) in r {
                    match (r, ok) {
                        (None, false) => {}
                        (Some(v), true) if v == wit => {}
                        (r, true) => return bad("wtns", format!("{n}: read {r:?}")),
                        (r, false) => return bad(&format!("wtns_{fault}_accepted"), format!("{n}: a file with fault {fault} is read as {r:?}")),
                    }
                }
                Ok(())
            }
            "json" => {
                let w = want(e);
                // one coefficient for each wire
                let cons: Vec<Vec<std::collections::BTreeMap<String, String>>> =
                    w.cons.iter().map(|c| c.iter().map(|t| t.iter().map(|(w, c)| (w.to_string(), c.to_string())).collect()).collect()).collect();
                let wc: Cons = cons
                    .iter()
                    .map(|c| c.iter().map(|t| t.iter().map(|(k, v)| (k.parse().unwrap(), v.parse().unwrap())).collect()).collect())
                    .collect();
                let p = path("c.json");
                std::fs::write(&p, json!({"constraints": cons, "nPubInputs": w.inp, "nOutputs": w.out, "nVars": w.wires}).to_string()).unwrap();
                let r: Vec<Option<Sys>> = match f {
                    0 => vec![guard(|| system!(algebraic::reader::load_r1cs::<Bn>(&p), un)), guard(|| system!(algebraic_gpu::reader::load_r1cs::<gpu::Bn>(&p), gpu::un))],
                    1 => vec![guard(|| system!(algebraic::reader::load_r1cs::<Bls>(&p), un)), guard(|| system!(algebraic_gpu::reader::load_r1cs::<gpu::Bls>(&p), gpu::un))],
                    _ => vec![guard(|| system!(algebraic::reader::load_r1cs::<Gl>(&p), un))],
                };
                std::fs::remove_file(&p).ok();
                let inputs = 1 + w.out + w.inp;
                for r in r {
                    let Some(r) = r else { return bad("json", "a JSON system is refused".into()) };
                    if (r.0, r.1, r.2, r.3) != (inputs, w.wires - inputs, w.wires, w.out) || sorted(&r.4) != sorted(&wc) || !r.5.is_empty() || !r.6.is_empty() {
                        return bad("json", format!("the JSON system is read as {}", short(&format!("{r:?}"))));
                    }
                }
                Ok(())
            }
            "json_wtns" => {
                let p = path("w.json");
                std::fs::write(&p, json!(wit.iter().map(|x| x.to_string()).collect::<Vec<_>>()).to_string()).unwrap();
                let r: Vec<Option<Vec<BigInt>>> = match f {
                    0 => vec![guard(|| algebraic::reader::load_witness_from_file::<Bn>(&p).iter().map(un).collect()), guard(|| algebraic_gpu::reader::load_witness_from_file::<gpu::Bn>(&p).iter().map(gpu::un).collect())],
                    1 => vec![guard(|| algebraic::reader::load_witness_from_file::<Bls>(&p).iter().map(un).collect()), guard(|| algebraic_gpu::reader::load_witness_from_file::<gpu::Bls>(&p).iter().map(gpu::un).collect())],
                    _ => vec![guard(|| algebraic::reader::load_witness_from_file::<Gl>(&p).iter().map(un).collect())],
                };
                std::fs::remove_file(&p).ok();
                for r in r {
                    if r.as_ref() != Some(&wit) {
                        return bad("json_wtns", format!("the JSON witness is read as {r:?}"));
                    }
                }
                Ok(())
            }
            o => bad("unknown", o.into()),
        }
    }
}
