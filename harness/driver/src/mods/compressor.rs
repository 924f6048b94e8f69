//! spec/compressor.qnt and spec/rows.qnt on `recursion::compressor12`
use super::pil_eval::Table;
use super::wasm;
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::ff::{Field, PrimeField};
use fields::field_gl::Fr as FGL;
use recursion::compressor12_exec::exec;
use recursion::compressor12_setup::setup;
use recursion::pilcom::compile_pil_from_path;
use serde_json::{json, Value};
use starky::merklehash::MerkleTreeGL;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::transcript::TranscriptGL;
use starky::types::{StarkStruct, PIL};
use std::collections::HashMap;

/// an R1CS file over Goldilocks
pub fn r1cs_bytes(c: &Value) -> Vec<u8> {
    let (out, inp, n) = (u(&c["pubOut"]) as u32, u(&c["pubIn"]) as u32, l(&c["w"]).len() as u32);
    let w4 = |x: u32| x.to_le_bytes().to_vec();
    let w8 = |x: u64| x.to_le_bytes().to_vec();
    let cons = l(&c["cons"]);
    let header = [w4(8), w8(P), w4(n), w4(out), w4(inp), w4(n - 1 - out - inp), w8(n as u64), w4(cons.len() as u32)].concat();
    let mut body = vec![];
    for x in &cons {
        for k in ["a", "b", "c"] {
            let t = l(&x[k]);
            body.extend(w4(t.len() as u32));
            for z in t {
                body.extend(w4(u(l(z)[0]) as u32));
                body.extend(w8(u(l(z)[1])));
            }
        }
    }
    let map: Vec<u8> = (0..n as u64).flat_map(w8).collect();
    let gates = l(&c["gates"]);
    let mut gb = w4(gates.len() as u32);
    for g in &gates {
        gb.extend(s(&g["kind"]).bytes());
        gb.push(0);
        let p = lu(&g["params"]);
        gb.extend(w4(p.len() as u32));
        p.iter().for_each(|x| gb.extend(w8(*x)));
    }
    let uses = l(&c["uses"]);
    let mut ub = w4(uses.len() as u32);
    for x in &uses {
        let s = lu(&x["signals"]);
        ub.extend(w4(u(&x["id"]) as u32));
        ub.extend(w4(s.len() as u32));
        s.iter().for_each(|x| ub.extend(w8(*x)));
    }
    let secs: Vec<(u32, Vec<u8>)> = if gates.is_empty() {
        vec![(1, header), (2, body), (3, map)]
    } else {
        vec![(1, header), (2, body), (3, map), (4, gb), (5, ub)]
    };
    let mut f = [b"r1cs".to_vec(), w4(1), w4(secs.len() as u32)].concat();
    for (t, b) in secs {
        f.extend(w4(t));
        f.extend(w8(b.len() as u64));
        f.extend(b);
    }
    f
}
fn fnv(x: &str) -> u64 {
    x.bytes().fold(0xcbf29ce484222325, |h, c| (h ^ c as u64).wrapping_mul(0x100000001b3))
}
/// a circuit whose witness is its input
fn identity(n: usize) -> Vec<u8> {
    let h = fnv("w");
    wasm::module(&wasm::Circuit {
        sizes: true,
        words: 2,
        prime: vec![1, 0xffff_ffff],
        version: 2,
        signals: vec![wasm::Signal { hash: ((h >> 32) as u32, h as u32), base: 1, len: n as u32 - 1 }],
        witness: (0..n).map(|i| vec![(i == 0) as u32, 0]).collect(),
        equal: vec![],
    })
}
fn mixed(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 31)) % (P - 1) + 1
}

pub struct M {
    dir: String,
    seen: u64,
}
impl M {
    pub fn new(dir: &str) -> Self {
        M { dir: dir.into(), seen: 0 }
    }
    fn path(&self, x: &str) -> String {
        format!("{}/{x}", self.dir)
    }
    fn run(&self, pil: &PIL, w: &[u64]) -> Option<Vec<Vec<FGL>>> {
        let text: Vec<String> = w[1..].iter().map(|x| format!("\"{x}\"")).collect();
        std::fs::write(self.path("in.json"), format!("{{\"w\": [{}]}}", text.join(","))).unwrap();
        let cm = self.path("c.cm");
        guard(|| exec(&self.path("in.json"), &self.path("c.wasm"), &self.path("c.pil"), &self.path("c.exec"), &cm).ok()).flatten()?;
        let mut a = PolsArray::new(pil, PolKind::Commit);
        a.load(&cm).ok()?;
        std::fs::remove_file(&cm).ok();
        Some(a.array)
    }
}
/// where the copy of each cell is required, as a permutation of the cells col * n + row
fn copies(pil: &PIL, cm: &[Vec<FGL>], cn: &[Vec<FGL>]) -> Result<Vec<(Vec<usize>, Vec<usize>)>, String> {
    let mut r = vec![];
    let n = cm[0].len();
    for c in pil.connectionIdentities.iter().flatten() {
        let (pols, conns) = (c.pols.as_ref().unwrap(), c.connections.as_ref().unwrap());
        if pols.len() != conns.len() {
            return Err("connection of different widths".into());
        }
        let mut t = Table::new(pil, cm, cn);
        let s: Vec<Vec<FGL>> = conns.iter().map(|e| (0..n).map(|i| t.exp(*e, i)).collect()).collect();
        let ks = starky::helper::get_ks(pols.len() - 1);
        let base = starky::constant::MG.0[n.trailing_zeros() as usize];
        let mut at = HashMap::new();
        for k in 0..pols.len() {
            let mut x = if k == 0 { gl(1) } else { ks[k - 1] };
            for i in 0..n {
                if at.insert(x.as_int(), k * n + i).is_some() {
                    return Err("positions are not distinct".into());
                }
                x.mul_assign(&base);
            }
        }
        let mut p = vec![];
        for col in &s {
            for v in col {
                match at.get(&v.as_int()) {
                    Some(x) => p.push(*x),
                    None => return Err(format!("{v} names no cell")),
                }
            }
        }
        let mut seen = vec![false; p.len()];
        for x in &p {
            if std::mem::replace(&mut seen[*x], true) {
                return Err("the copies are not a permutation".into());
            }
        }
        r.push((pols.clone(), p));
    }
    Ok(r)
}
fn cell(cm: &[Vec<FGL>], n: usize, x: usize) -> FGL {
    cm[x / n][x % n]
}
/// do identities and copies hold?
fn holds(pil: &PIL, cm: &[Vec<FGL>], cn: &[Vec<FGL>], cp: &[(Vec<usize>, Vec<usize>)]) -> (bool, String) {
    let mut t = Table::new(pil, cm, cn);
    if let Some((i, row)) = t.broken() {
        return (false, format!("identity {i} (line {}) fails in row {row}", pil.polIdentities[i].line));
    }
    let n = cm[0].len();
    for (pols, p) in cp {
        for (x, y) in p.iter().enumerate() {
            if t.exp(pols[x / n], x % n) != t.exp(pols[*y / n], *y % n) {
                return (false, format!("cells {x} and {y} differ"));
            }
        }
    }
    (true, "all identities and copies hold".into())
}

impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        if s(&e["op"]) == "init" {
            return Ok(());
        }
        self.seen += 1;
        let c = &e["circ"];
        let n_wires = l(&c["w"]).len();
        let np = us(&c["pubOut"]) + us(&c["pubIn"]);
        std::fs::write(self.path("c.r1cs"), r1cs_bytes(c)).unwrap();
        std::fs::write(self.path("c.wasm"), identity(n_wires)).unwrap();
        let [r, p, k, x] = ["c.r1cs", "c.pil", "c.const", "c.exec"].map(|f| self.path(f));
        if guard(|| setup(&r, &p, &k, &x, us(&e["force"])).ok()).flatten().is_none() {
            return bad("setup", format!("no layout for constraints {} gates {} uses {}", show(&c["cons"]), show(&c["gates"]), show(&c["uses"])));
        }
        let pil = compile_pil_from_path(&p);
        let mut ka = PolsArray::new(&pil, PolKind::Constant);
        ka.load(&k).map_err(|_| ()).or_else(|_| bad("const", "the constants cannot be read back".into()))?;
        let cn = ka.array;
        let n = cn[0].len();
        if us(&e["force"]) > 0 && n != 1 << us(&e["force"]) {
            return bad("size", format!("{n} rows instead of 2^{}", us(&e["force"])));
        }
        if pil.publics.len() != np {
            return bad("publics", format!("{} public values instead of {np}", pil.publics.len()));
        }
        // which wire fills which cell: all wires different
        let gen: Vec<u64> = (0..n_wires as u64).map(|i| if i == 0 { 1 } else { mixed(i + 977 * self.seen) }).collect();
        let Some(g) = self.run(&pil, &gen) else {
            return bad("fill", format!("no trace for constraints {} gates {}", show(&c["cons"]), show(&c["gates"])));
        };
        let cp = match copies(&pil, &g, &cn) {
            Ok(x) => x,
            Err(x) => return bad("copies", x),
        };
        let mut class: Vec<Option<usize>> = vec![None; 12 * n];
        for (_, p) in &cp {
            for x in 0..p.len() {
                if class[x].is_none() {
                    let mut y = x;
                    while class[y].is_none() {
                        class[y] = Some(x);
                        y = p[y];
                    }
                }
            }
        }
        // added wires that are the same combination have the same value in every run: as many classes as there are of them
        let mut many: HashMap<u64, usize> = HashMap::new();
        if let Some((_, adds)) = guard(|| recursion::r1cs2plonk::r1cs2plonk(&super::plonk::system(c, super::plonk::cons(c)))) {
            let mut w: Vec<FGL> = gen.iter().map(|x| gl(*x)).collect();
            for a in &adds {
                let v = super::plonk::add(a, &w);
                w.push(v);
                *many.entry(v.as_int()).or_default() += 1;
            }
        }
        let mut of: HashMap<u64, Vec<usize>> = HashMap::new();
        let mut free = vec![];
        for x in 0..12 * n {
            let v = cell(&g, n, x).as_int();
            if v == 0 {
                free.push(x);
                continue;
            }
            let classes = of.entry(v).or_default();
            if !classes.contains(&class[x].unwrap()) {
                classes.push(class[x].unwrap());
            }
            if classes.len() > many.get(&v).copied().unwrap_or(1).max(1) {
                return bad("unconnected", format!("cell {} of row {} holds the same wire as another cell, without copy", x / n, x % n));
            }
        }
        let alts = l(&e["alts"]);
        for (j, a) in alts.iter().enumerate() {
            let w = lu(&a["w"]);
            let want = b(&a["ok"]);
            let Some(cm) = self.run(&pil, &w) else {
                return bad("fill", format!("no trace for assignment {}", show(&a["w"])));
            };
            let mut other = cm.clone();
            for x in &free {
                other[x / n][x % n] = gl(mixed(*x as u64 + 31 * self.seen + j as u64));
            }
            for (what, t) in [("filled", &cm), ("with other values in unused cells", &other)] {
                let (ok, why) = holds(&pil, t, &cn, &cp);
                if ok != want {
                    return bad(
                        if ok { "weaker" } else { "stronger" },
                        format!("trace {what}: {why}, but the assignment {} satisfies: {want}; constraints {} gates {} uses {} publics {np}",
                            show(&a["w"]), show(&c["cons"]), show(&c["gates"]), show(&c["uses"])),
                    );
                }
                let got: Vec<u64> = Table::new(&pil, t, &cn).publics.iter().map(|x| x.as_int()).collect();
                if got != w[1..1 + np] {
                    return bad("public_value", format!("public values {got:?} instead of {:?}", &w[1..1 + np]));
                }
            }
            // sometimes a real proof of this trace
            if self.seen % 23 == 7 && j < 3 && (j == 0 || !want) {
                let ok = proved(&p, &cn, &cm);
                if ok != want {
                    return bad("proof", format!("the proof of the trace is accepted: {ok}, the assignment satisfies: {want}; constraints {}", show(&c["cons"])));
                }
            }
        }
        Ok(())
    }
}
fn proved(pil_file: &str, cn: &[Vec<FGL>], cm: &[Vec<FGL>]) -> bool {
    let nb = cn[0].len().trailing_zeros() as u64;
    let st: StarkStruct = serde_json::from_value(json!({
        "nBits": nb, "nBitsExt": nb + 1, "nQueries": 4, "verificationHashType": "GL",
        "steps": [{"nBits": nb + 1}, {"nBits": 2.min(nb)}],
    }))
    .unwrap();
    let fill = |pil: &PIL, k: PolKind, c: &[Vec<FGL>]| {
        let mut a = PolsArray::new(pil, k);
        a.array = c.to_vec();
        a
    };
    guard(|| {
        let before = compile_pil_from_path(pil_file);
        let mut pil = compile_pil_from_path(pil_file);
        let x = StarkSetup::<MerkleTreeGL>::new(&fill(&before, PolKind::Constant, cn), &mut pil, &st, None).ok()?;
        let proof = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(
            fill(&before, PolKind::Commit, cm),
            fill(&before, PolKind::Constant, cn),
            &x.const_tree,
            &x.starkinfo,
            &x.program,
            &pil,
            &st,
            "",
        )
        .ok()?;
        stark_verify::<MerkleTreeGL, TranscriptGL>(&proof, &x.const_root, &x.starkinfo, &st, &x.program).ok()
    })
    .flatten()
    .unwrap_or(false)
}

/// spec/gates.qnt: which tables the generated identities admit
pub struct Gates {
    dir: String,
    pils: HashMap<(u64, u64), PIL>,
}
impl Gates {
    pub fn new(dir: &str) -> Self {
        Gates { dir: dir.into(), pils: HashMap::new() }
    }
    fn pil(&mut self, nb: u64, pubs: u64) -> Option<&PIL> {
        let d = &self.dir;
        if !self.pils.contains_key(&(nb, pubs)) {
            let c = json!({"pubOut": 0, "pubIn": pubs, "w": vec![1; pubs as usize + 2], "gates": [], "uses": [],
                "cons": [{"a": [[1, 1]], "b": [[1, 1]], "c": [[1, 1]]}]});
            let [r, p, k, x] = ["g.r1cs", "g.pil", "g.const", "g.exec"].map(|f| format!("{d}/{f}"));
            std::fs::write(&r, r1cs_bytes(&c)).unwrap();
            guard(|| setup(&r, &p, &k, &x, nb as usize).ok()).flatten()?;
            let pil = guard(|| compile_pil_from_path(&p))?;
            self.pils.insert((nb, pubs), pil);
        }
        self.pils.get(&(nb, pubs))
    }
}
impl Module for Gates {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        if s(&e["op"]) == "init" {
            return Ok(());
        }
        let (nb, pubs, at) = (u(&e["nb"]), u(&e["pubs"]), us(&e["at"]));
        let n = 1usize << nb;
        let Some(pil) = self.pil(nb, pubs) else { return bad("pil", format!("no program for 2^{nb} rows and {pubs} public values")) };
        let id = |x: &str| pil.references.get(x).map(|r| (r.id, r.len.unwrap_or(1), r.type_.clone()));
        let mut cn = vec![vec![gl(0); n]; pil.nConstants];
        let mut cm = vec![vec![gl(0); n]; pil.nCommitments];
        let Some((a, 12, kind)) = id("Compressor.a") else { return bad("names", "no twelve cells".into()) };
        let (Some((c, 12, _)), Some((sc, 12, _))) = (id("Compressor.C"), id("Compressor.S")) else { return bad("names", "no twelve fixed columns".into()) };
        if kind != "cmP" || pil.nCommitments != 12 {
            return bad("names", format!("{} committed columns", pil.nCommitments));
        }
        for (i, row) in l(&e["a"]).iter().enumerate() {
            for (j, v) in gls(&lu(row)).iter().enumerate() {
                cm[a + j][i] = *v;
            }
        }
        for j in 0..12 {
            for i in 0..n {
                cn[c + j][i] = gl(mixed((i * 12 + j) as u64));
                cn[sc + j][i] = gl(mixed((i * 12 + j + 1000) as u64));
            }
            cn[c + j][at] = gl(u(l(&e["c"])[j]));
        }
        let mut set = vec![];
        for x in l(&e["sels"]) {
            set.push(format!("Compressor.{}", s(x)));
        }
        if u(&e["lag"]) > 0 {
            set.push(format!("Global.L{}", u(&e["lag"])));
        }
        for x in &set {
            let Some((k, 1, t)) = id(x) else { return bad("names", format!("no column {x}")) };
            if t != "constP" {
                return bad("names", format!("{x} is not fixed"));
            }
            cn[k][at] = gl(1);
        }
        let mut t = Table::new(pil, &cm, &cn);
        let got = t.broken();
        if got.is_none() != b(&e["ok"]) {
            return bad(
                if got.is_none() { "weaker" } else { "stronger" },
                format!("row {at} of {n} with {set:?}: identity {got:?} fails, the functions hold: {}", b(&e["ok"])),
            );
        }
        // copies between all twelve columns
        let Some([k]) = pil.connectionIdentities.as_deref() else { return bad("connect", "no connection".into()) };
        let (x, y) = (k.pols.clone().unwrap(), k.connections.clone().unwrap());
        if x.len() != 12 || y.len() != 12 || (0..12).any(|j| (0..n).any(|i| t.exp(x[j], i) != cm[a + j][i] || t.exp(y[j], i) != cn[sc + j][i])) {
            return bad("connect", "the connection is not of the twelve cells".into());
        }
        if !pil.plookupIdentities.is_empty() || pil.permutationIdentities.iter().flatten().next().is_some() {
            return bad("extra", "other relations".into());
        }
        Ok(())
    }
}
