//! spec/source.qnt on recursion::pilcom: programs written as PIL source, compiled, compared with their meaning and proved
use super::pil_eval::Table;
use super::stark::{accepted, stage, stark_struct, Proved, Tx};
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use fields::field_gl::Fr as FGL;
use num_bigint::BigInt;
use recursion::pilcom::{compile_pil_from_path, compile_pil_from_str};
use serde_json::Value;
use starky::merklehash::MerkleTreeGL;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::transcript::TranscriptGL;
use starky::traits::FieldExtension;
use starky::types::{Expression, PIL};
use std::collections::HashMap;

pub struct M {
    dir: String,
    n: usize,
}
impl M {
    pub fn new(dir: &str) -> Self {
        M { dir: dir.into(), n: 0 }
    }
}
const NS: [&str; 4] = ["Main", "Aux", "Deep::Inner", "Global"];
/// where a column or an expression is declared: namespace, name, index, position among its kind
struct At {
    ns: usize,
    name: String,
    index: Option<usize>,
    pos: usize,
}
struct Source<'a> {
    p: &'a Value,
    at: HashMap<(&'static str, usize), At>,
    exprs: Vec<Vec<&'a Value>>,
}
impl<'a> Source<'a> {
    fn name(&self, kind: &'static str, i: usize, ns: usize, short: bool) -> String {
        let a = &self.at[&(kind, i)];
        let n = if short && a.ns == ns { a.name.clone() } else { format!("{}{}{}", NS[a.ns], if NS[a.ns].contains("::") { "::" } else { "." }, a.name) };
        match a.index {
            Some(j) => format!("{n}[{j}]"),
            None => n,
        }
    }
    fn text(&self, e: usize, i: usize, ns: usize, short: bool) -> String {
        let d = self.exprs[e][i];
        let v = &d["v"];
        let next = if b(&d["nx"]) { "'" } else { "" };
        let sub = |k: &str| self.text(e, us(&d[k]), ns, short);
        match s(&d["op"]) {
            "number" => {
                let x = big(v) % BigInt::from(P);
                if x < BigInt::from(0) { format!("(-{})", -x) } else { x.to_string() }
            }
            "public" => format!(":p{}", us(v)),
            "cm" => self.name("cm", us(v), ns, short) + next,
            "const" => self.name("const", us(v), ns, short) + next,
            "exp" => self.name("im", us(v), ns, short) + next,
            "neg" => format!("(-{})", sub("a")),
            "add" => format!("({} + {})", sub("a"), sub("b")),
            "sub" => format!("({} - {})", sub("a"), sub("b")),
            "mul" => format!("({} * {})", sub("a"), sub("b")),
            x => panic!("node {x}"),
        }
    }
    fn whole(&self, e: usize, inl: bool, ns: usize, short: bool) -> String {
        if inl { self.text(e, self.exprs[e].len() - 1, ns, short) } else { self.name("im", e, ns, short) }
    }
}
/// the text, and the line of every relation in the order of the text
fn render<'a>(p: &'a Value, plan: &[&'a Value]) -> (Source<'a>, String, HashMap<&'static str, Vec<(usize, bool)>>) {
    let mut src = Source { p, at: HashMap::new(), exprs: l(&p["exprs"]).into_iter().map(|e| l(e)).collect() };
    let mut pos: HashMap<&'static str, usize> = HashMap::new();
    for x in plan {
        let (kind, letter) = match s(&x["kind"]) {
            "cm" => ("cm", "c"),
            "const" => ("const", "K"),
            "im" => ("im", "e"),
            _ => continue,
        };
        let ids = lu(&x["ids"]);
        let name = if kind == "const" && ids[0] == 0 { "L1".to_string() } else { format!("{letter}{}", ids[0]) };
        for (j, i) in ids.iter().enumerate() {
            let q = pos.entry(kind).or_insert(0);
            let index = b(&x["arr"]).then_some(j);
            // two declarations of one name each are written one after the other
            let name = if index.is_none() && j > 0 { format!("{letter}{i}") } else { name.clone() };
            src.at.insert((kind, *i as usize), At { ns: us(&x["ns"]), name, index, pos: *q });
            *q += 1;
        }
    }
    let nb = u(&p["nb"]);
    let mut t = format!("let N: int = 2**{nb};\n");
    let mut ns = 9;
    let mut lines: HashMap<&'static str, Vec<(usize, bool)>> = HashMap::new();
    let short = plan.len() % 2 == 0;
    for x in plan {
        for _ in 0..us(&x["gap"]) {
            t += if t.len() % 2 == 0 { "\n" } else { "// a remark\n" };
        }
        let tab = ["    ", "", " "][us(&x["gap"])];
        if us(&x["ns"]) != ns {
            ns = us(&x["ns"]);
            t += &format!("namespace {}(N);\n", NS[ns]);
        }
        let (ids, arr, inl) = (lu(&x["ids"]), b(&x["arr"]), b(&x["inl"]));
        let i = ids[0] as usize;
        let mut line = |k: &'static str, t: &String| lines.entry(k).or_default().push((t.matches('\n').count() + 1, inl));
        let names = |v: &Value| lu(v).iter().map(|e| src.whole(*e as usize, inl, ns, short)).collect::<Vec<_>>().join(", ");
        let side = |e: &Value, sel: &Value| {
            let sel = if big(sel) < BigInt::from(0) { String::new() } else { src.whole(us(sel), inl, ns, short) + " " };
            format!("{sel}{{ {} }}", names(e))
        };
        match s(&x["kind"]) {
            k @ ("cm" | "const") => {
                let word = if k == "cm" { "commit" } else { "constant" };
                let key = if k == "cm" { "cm" } else { "const" };
                if arr {
                    t += &format!("{tab}pol {word} {}[{}];\n", src.at[&(key, i)].name, ids.len());
                } else {
                    let n: Vec<_> = ids.iter().map(|i| src.at[&(key, *i as usize)].name.clone()).collect();
                    t += &format!("{tab}pol {word} {};\n", n.join(", "));
                }
            }
            "im" if arr => {
                let e: Vec<_> = ids.iter().map(|e| src.whole(*e as usize, true, ns, short)).collect();
                t += &format!("{tab}pol {}[{}] = [{}];\n", src.at[&("im", i)].name, ids.len(), e.join(", "));
            }
            "im" => {
                for e in ids {
                    t += &format!("{tab}pol {} = {};\n", src.at[&("im", e as usize)].name, src.whole(e as usize, true, ns, short));
                }
            }
            "public" => {
                let x = l(&p["publics"])[i];
                let kind = if s(&x["kind"]) == "cmP" { "cm" } else { "im" };
                t += &format!("{tab}public p{i} = {}({});\n", src.name(kind, us(&x["pol"]), ns, short), us(&x["row"]));
            }
            "id" => {
                line("id", &t);
                t += &format!("{tab}{} = 0;\n", src.whole(lu(&p["ids"])[i] as usize, inl, ns, short));
            }
            k @ ("lookup" | "perm") => {
                line(if k == "lookup" { "lookup" } else { "perm" }, &t);
                let x = l(&p[if k == "lookup" { "lookups" } else { "perms" }])[i];
                t += &format!("{tab}{} {}\n        {};\n", side(&x["f"], &x["selF"]), if k == "lookup" { "in" } else { "is" }, side(&x["t"], &x["selT"]));
            }
            "conn" => {
                line("conn", &t);
                let x = l(&p["conns"])[i];
                t += &format!("{tab}{{ {} }} connect {{ {} }};\n", names(&x["pols"]), names(&x["conns"]));
            }
            k => panic!("statement {k}"),
        }
    }
    (src, t, lines)
}
fn degree(e: &Expression) -> usize {
    let kids = || e.values.as_ref().unwrap().iter().map(degree);
    match e.op.as_str() {
        "cm" | "const" | "exp" => 1,
        "mul" => kids().sum(),
        "add" | "sub" | "neg" => kids().max().unwrap(),
        _ => 0,
    }
}
impl Module for M {
    fn step(&mut self, st: &Value) -> R {
        let (e, p) = (&st["last"], &st["last"]["p"]);
        if s(&e["op"]) == "init" {
            return Ok(());
        }
        let plan = l(&e["plan"]);
        let (src, text, lines) = render(p, &plan);
        let mut file = String::new();
        let pil = if b(&e["named"]) {
            self.n += 1;
            file = format!("program{}.pil", self.n);
            let path = format!("{}/{file}", self.dir);
            std::fs::write(&path, &text).unwrap();
            guard(|| compile_pil_from_path(&path))
        } else {
            guard(|| compile_pil_from_str(&text))
        };
        let Some(mut pil) = pil else { return bad("refused", format!("a program does not compile:\n{text}")) };
        let fail = |k: &str, m: String| bad(k, format!("{m}\n{text}"));
        let n = 1usize << u(&p["nb"]);
        let pick = |kind: &str, order: &Value| -> Vec<Vec<FGL>> { let c = l(&p[kind]); lu(order).iter().map(|i| gls(&lu(c[*i as usize]))).collect() };
        let (cm, cn) = (pick("cms", &e["cms"]), pick("consts", &e["consts"]));
        let want: Vec<Vec<u64>> = l(&st["w"]["v"]).iter().map(|c| lu(c)).collect();
        let degs = lu(&e["degs"]);

        // declarations
        let counts = (pil.nCommitments, pil.nConstants, pil.nIm, pil.references.len());
        let names: usize = plan.iter().filter(|x| ["cm", "const", "im"].contains(&s(&x["kind"]))).map(|x| if b(&x["arr"]) { 1 } else { lu(&x["ids"]).len() }).sum();
        if counts != (cm.len(), cn.len(), src.exprs.len(), names) {
            return fail("counts", format!("committed, constant and intermediate polynomials, names: {counts:?}"));
        }
        let pubs = lu(&e["pubs"]);
        let got: Vec<_> = pil.publics.iter().map(|x| (x.name.clone(), x.id, x.idx, x.polType.clone())).collect();
        let expected: Vec<_> = pubs
            .iter()
            .enumerate()
            .map(|(j, i)| {
                let x = l(&p["publics"])[*i as usize];
                (format!("p{i}"), j, us(&x["row"]), s(&x["kind"]).to_string())
            })
            .collect();
        if got != expected {
            return fail("publics", format!("publics (name, number, row, kind) {got:?}, declared {expected:?}"));
        }
        let view = pil.clone();
        let mut table = Table::new(&view, &cm, &cn);
        let vals = lu(&e["vals"]);
        if ungl(&table.publics) != vals {
            return fail("public_values", format!("publics have the values {:?}, not {vals:?}", ungl(&table.publics)));
        }
        let mut column = |x: usize| -> Vec<u64> { (0..n).map(|r| ungl(&[table.exp(x, r)])[0]).collect() };
        let q = |x: usize, linear: usize| {
            let y = &view.expressions[x];
            let d = degree(y);
            let want = (if d > linear { 1 } else { d }, d > linear);
            ((y.deg, y.idQ.is_some()) != want).then(|| format!("expression {x} of degree {d} is exported with {:?}, {:?}", y.deg, y.idQ))
        };
        for ((kind, i), a) in &src.at {
            let full = format!("{}.{}", NS[a.ns], a.name);
            let Some(r) = view.references.get(&full) else { return fail("reference", format!("{full} is not among the names {:?}", view.references.keys())) };
            let ty = match *kind {
                "cm" => "cmP",
                "const" => "constP",
                _ => "imP",
            };
            let j = a.index.unwrap_or(0);
            if r.type_ != ty || r.isArray != a.index.is_some() || r.len.is_some() != a.index.is_some() || r.len.map_or(false, |n| j >= n) || r.polDeg != n {
                return fail("reference", format!("{full} is {r:?}"));
            }
            if *kind != "im" {
                if r.id + j != a.pos {
                    return fail("reference", format!("{full}[{j}] is number {} + {j}, declared as {}", r.id, a.pos));
                }
            } else {
                if column(r.id + j) != want[*i] {
                    return fail("intermediate", format!("{full}[{j}] has the values {:?}, not {:?}", column(r.id + j), want[*i]));
                }
                if let Some(m) = q(r.id + j, 1) {
                    return fail("degree", m);
                }
                if degree(&view.expressions[r.id + j]) as u64 != degs[*i] {
                    return fail("degree", format!("{full}[{j}] has degree {}", degree(&view.expressions[r.id + j])));
                }
            }
        }
        let mut qs: Vec<_> = view.expressions.iter().filter_map(|x| x.idQ).collect();
        qs.sort();
        if qs != (0..view.nQ).collect::<Vec<_>>() {
            return fail("quotients", format!("numbers of quotients {qs:?} of {}", view.nQ));
        }
        // relations
        let none = vec![];
        let known = |k: &str| lines.get(k).unwrap_or(&none);
        let order = |k: &str, of: &str| -> Vec<&Value> { let x = l(&p[of]); lu(&e[k]).iter().map(|i| x[*i as usize]).collect() };
        let ids = order("ids", "ids");
        if ids.len() != view.polIdentities.len() {
            return fail("identities", format!("{} identities of {}", view.polIdentities.len(), ids.len()));
        }
        for ((x, w), (line, inl)) in view.polIdentities.iter().zip(ids).zip(known("id")) {
            if column(x.e) != want[us(w)] {
                return fail("identity", format!("the identity of line {line} has the values {:?}, not {:?}", column(x.e), want[us(w)]));
            }
            if let Some(m) = q(x.e, if *inl { 2 } else { 1 }) {
                return fail("degree", m);
            }
            if (x.line, &x.fileName) != (*line, &file) {
                return fail("line", format!("an identity of line {line} of {file:?} is said to be in {} of {:?}", x.line, x.fileName));
            }
        }
        let no = vec![];
        for (kind, of, got) in [("lookup", "lookups", None), ("perm", "perms", Some(view.permutationIdentities.as_ref().unwrap_or(&no)))] {
            let got: Vec<_> = match got {
                None => view.plookupIdentities.iter().map(|x| (x.f.clone(), x.t.clone(), x.selF, x.selT, x.line, x.fileName.clone())).collect(),
                Some(g) => g.iter().map(|x| (x.f.clone(), x.t.clone(), x.selF, x.selT, x.line, x.fileName.clone())).collect(),
            };
            let o = order(of, of);
            if o.len() != got.len() {
                return fail("relations", format!("{} {of} of {}", got.len(), o.len()));
            }
            for ((x, w), (line, _)) in got.iter().zip(o).zip(known(kind)) {
                let sel = |v: &Value| -> Vec<usize> { if big(v) < BigInt::from(0) { vec![] } else { vec![us(v)] } };
                let ids = |v: &Value| -> Vec<usize> { lu(v).iter().map(|x| *x as usize).collect() };
                for (part, g, w) in [
                    ("f", x.0.clone().unwrap_or_default(), ids(&w["f"])),
                    ("t", x.1.clone().unwrap_or_default(), ids(&w["t"])),
                    ("selF", x.2.into_iter().collect(), sel(&w["selF"])),
                    ("selT", x.3.into_iter().collect(), sel(&w["selT"])),
                ] {
                    if g.len() != w.len() {
                        return fail(kind, format!("{part} of the {kind} of line {line} has {} expressions of {}", g.len(), w.len()));
                    }
                    for (g, w) in g.iter().zip(w) {
                        if column(*g) != want[w] {
                            return fail(kind, format!("{part} of the {kind} of line {line} has the values {:?}, not {:?}", column(*g), want[w]));
                        }
                        if let Some(m) = q(*g, 1) {
                            return fail("degree", m);
                        }
                    }
                }
                if (x.4, &x.5) != (*line, &file) {
                    return fail("line", format!("a {kind} of line {line} of {file:?} is said to be in {} of {:?}", x.4, x.5));
                }
            }
        }
        let noc = vec![];
        let got = view.connectionIdentities.as_ref().unwrap_or(&noc);
        let o = order("conns", "conns");
        if got.len() != o.len() {
            return fail("relations", format!("{} connections of {}", got.len(), o.len()));
        }
        for ((x, w), (line, _)) in got.iter().zip(o).zip(known("conn")) {
            for (g, w) in [(x.pols.clone(), lu(&w["pols"])), (x.connections.clone(), lu(&w["conns"]))] {
                let g = g.unwrap_or_default();
                if g.len() != w.len() || g.iter().zip(&w).any(|(g, w)| column(*g) != want[*w as usize]) {
                    return fail("conn", format!("the connection of line {line} is over {g:?}"));
                }
                if let Some(m) = g.iter().find_map(|g| q(*g, 1)) {
                    return fail("degree", m);
                }
            }
            if (x.line, &x.fileName) != (*line, &file) {
                return fail("line", format!("a connection of line {line} of {file:?} is said to be in {} of {:?}", x.line, x.fileName));
            }
        }
        if s(&e["op"]) != "prove" {
            return Ok(());
        }
        // proofs
        let fill = |pil: &PIL, kind: PolKind, c: &[Vec<FGL>]| {
            let mut a = PolsArray::new(pil, kind);
            for (i, x) in c.iter().enumerate() {
                a.array[i] = x.clone();
            }
            a
        };
        let sat = b(&e["sat"]);
        let st = stark_struct(u(&p["nb"]), &e["cfg"]);
        let k = fill(&pil, PolKind::Constant, &cn);
        let Some(setup) = guard(|| StarkSetup::<MerkleTreeGL>::new(&k, &mut pil, &st, None).ok()).flatten() else { return fail("setup", "setup refuses a program".into()) };
        let proof = guard(|| {
            StarkProof::<MerkleTreeGL>::stark_gen::<Tx<TranscriptGL>>(
                fill(&view, PolKind::Commit, &cm),
                fill(&view, PolKind::Constant, &cn),
                &setup.const_tree,
                &setup.starkinfo,
                &setup.program,
                &pil,
                &st,
                "0x1234567890abcdef",
            )
            .ok()
        })
        .flatten();
        let x = Proved { setup, st, proof, given: vec![], at: vec![] };
        let (ok, _) = stage(None, || x.proof.as_ref().map_or(false, |p| accepted::<MerkleTreeGL, Tx<TranscriptGL>>(&x, p, &x.setup.const_root)));
        if ok != sat {
            return fail("proof", format!("a proof is accepted: {ok}, the trace satisfies the program: {sat}"));
        }
        if let Some(q) = x.proof.as_ref().filter(|_| sat) {
            let got: Vec<u64> = q.publics.iter().map(|x| ungl(&x.as_elements())[0]).collect();
            if got != vals {
                return fail("proof_publics", format!("the proof's public values {got:?}, not {vals:?}"));
            }
        }
        Ok(())
    }
}
