//! spec/witness.qnt on `algebraic::witness` and `algebraic_gpu::witness`
use super::r1cs::{gpu, Bn};
use super::wasm;
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use num_bigint::BigInt;
use serde_json::Value;

pub struct M {
    dir: String,
    cpu: Option<algebraic::witness::WitnessCalculator>,
    gpu: Option<algebraic_gpu::witness::WitnessCalculator>,
}
impl M {
    pub fn new(dir: &str) -> Self {
        M { dir: dir.into(), cpu: None, gpu: None }
    }
}
const ORDERS: [&str; 3] = [
    "21888242871839275222246405745257275088548364400416034343698204186575808495617",
    "52435875175126190479447740508185965837690552500527637822603658699938581184513",
    "18446744069414584321",
];
pub fn words(x: &BigInt, n: u32) -> Vec<u32> {
    let mut d = x.to_u32_digits().1;
    d.resize(n as usize, 0);
    d
}
fn text(v: &Value) -> String {
    String::from_utf8(lu(v).iter().map(|x| *x as u8).collect()).unwrap()
}
pub fn circuit(c: &Value) -> wasm::Circuit {
    let f = us(&c["f"]);
    let n = if f == 2 { 2 } else { 8 };
    wasm::Circuit {
        words: n,
        prime: words(&ORDERS[f].parse().unwrap(), n),
        version: u(&c["version"]) as u32,
        sizes: c["sizes"] == true,
        signals: l(&c["signals"])
            .iter()
            .map(|s| wasm::Signal { hash: (u(l(&s["hash"])[0]) as u32, u(l(&s["hash"])[1]) as u32), base: u(&s["base"]) as u32, len: u(&s["len"]) as u32 })
            .collect(),
        witness: lbig(&c["wit"]).iter().map(|x| words(x, n)).collect(),
        equal: l(&c["equal"]).iter().map(|e| (u(l(e)[0]) as u32, u(l(e)[1]) as u32)).collect(),
    }
}
fn render(i: &Value) -> String {
    let mut out = String::new();
    for t in l(&i["toks"]) {
        let k = s(&t["k"]);
        if k != "]" && !out.is_empty() && !out.ends_with('[') {
            out.push(',');
        }
        let v = big(&t["v"]);
        match k {
            "[" | "]" => out.push_str(k),
            "text" => out.push_str(&format!("\"{v}\"")),
            "number" => out.push_str(&v.to_string()),
            _ => out.push_str(if is_zero(&v) { "false" } else { "true" }),
        }
    }
    format!("{}: {out}", serde_json::to_string(&text(&i["name"])).unwrap())
}

macro_rules! check {
    ($self:ident, $cr:ident, $calc:expr, $eng:ty, $un:path, $e:expr, $p:expr) => {{
        let e = $e;
        let c = &e["circ"];
        let f = us(&c["f"]);
        let input = format!("{}.json", $p);
        std::fs::write(&input, format!("{{{}}}", l(&e["inputs"]).iter().map(|i| render(i)).collect::<Vec<_>>().join(", "))).unwrap();
        let calc = $calc;
        let list = guard(|| calc.calculate_witness($cr::witness::load_input_for_witness(&input), false).ok().map(|w| w.iter().map(|x| x.to_string()).collect::<Vec<_>>())).flatten();
        let bin = guard(|| calc.calculate_witness_bin($cr::witness::load_input_for_witness(&input), true).ok()).flatten();
        std::fs::remove_file(&input).ok();
        if s(&e["op"]) == "refuse" {
            if list.is_some() || bin.is_some() {
                return bad(&format!("{}_accepted", s(&e["fault"])), format!("{}: a witness is returned for inputs with fault {}: {:?}", stringify!($cr), s(&e["fault"]), list));
            }
        } else {
            let want: Vec<String> = lbig(&e["wit"]).iter().map(|x| x.to_string()).collect();
            let Some(list) = list else { return bad("refused", format!("{}: inputs are refused: {}", stringify!($cr), short(&show(&e["inputs"])))) };
            if list != want {
                return bad("witness", format!("{}: the witness is {list:?}, not {want:?}", stringify!($cr)));
            }
            let Some(bin) = bin else { return bad("refused", format!("{}: inputs are refused (binary)", stringify!($cr))) };
            let p = format!("{}.wtns", $p);
            std::fs::write(&p, vec![0xAB; 3000]).unwrap();
            if guard(|| calc.save_witness_to_bin_file::<$eng>(&p, &bin).is_ok()) != Some(true) {
                return bad("save", "the witness is not saved".into());
            }
            let got = std::fs::read(&p).unwrap();
            let want_b: Vec<u8> = lu(&e["file"]).iter().map(|x| *x as u8).collect();
            if got != want_b {
                return bad("file", format!("{}: the witness file is {}", stringify!($cr), short(&format!("{got:?}, not {want_b:?}"))));
            }
            if f == 0 {
                let back = guard(|| $cr::reader::load_witness_from_file::<$eng>(&p).iter().map(|x| $un(x).to_string()).collect::<Vec<_>>());
                if back.as_ref() != Some(&want) {
                    return bad("reload", format!("{}: the saved witness is read as {back:?}", stringify!($cr)));
                }
            }
            std::fs::remove_file(&p).ok();
        }
        Ok(())
    }};
}
fn short(x: &str) -> String {
    x.chars().take(600).collect()
}

impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let p = format!("{}/w-{:?}", self.dir, std::thread::current().id()).replace(['(', ')'], "");
        match s(&e["op"]) {
            "init" => Ok(()),
            "circuit" => {
                let c = circuit(&e["circ"]);
                let f = us(&e["circ"]["f"]);
                let file = format!("{p}.wasm");
                std::fs::write(&file, wasm::module(&c)).unwrap();
                let (a, g) = (
                    guard(|| algebraic::witness::WitnessCalculator::from_file(&file)),
                    guard(|| algebraic_gpu::witness::WitnessCalculator::from_file(&file)),
                );
                std::fs::remove_file(&file).ok();
                let (Some(Ok(a)), Some(Ok(g))) = (a, g) else { return bad("load", "a circuit is not loaded".into()) };
                let v = c.version.max(1);
                let n64 = if f == 2 { 1 } else { 4 };
                let q = ORDERS[f];
                if (a.circom_version, a.n64, a.memory.prime.to_string().as_str()) != (v, n64, q)
                    || (g.circom_version, g.n64, g.memory.prime.to_string().as_str()) != (v, n64, q)
                {
                    return bad("load", format!("version {} {}, words {} {}, prime {}", a.circom_version, g.circom_version, a.n64, g.n64, a.memory.prime));
                }
                (self.cpu, self.gpu) = (Some(a), Some(g));
                Ok(())
            }
            "calculate" | "refuse" => {
                let r: R = check!(self, algebraic, self.cpu.as_mut().unwrap(), Bn, super::poseidon::un, e, &p);
                r?;
                check!(self, algebraic_gpu, self.gpu.as_mut().unwrap(), gpu::Bn, gpu::un, e, &p)
            }
            o => bad("unknown", o.into()),
        }
    }
}
