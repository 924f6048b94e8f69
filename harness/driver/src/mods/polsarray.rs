//! spec/polsarray.qnt on `starky::polsarray`
use super::fft::gf;
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use serde_json::{json, Value};
use starky::f3g::F3G;
use starky::polsarray::{PolKind, PolsArray};
use starky::types::PIL;

pub struct M {
    dir: String,
    pil: Option<PIL>,
    arr: PolsArray,
    kind: String,
}
impl M {
    pub fn new(dir: &str) -> Self {
        M { dir: dir.into(), pil: None, arr: PolsArray::default(), kind: String::new() }
    }
    fn path(&self) -> String {
        format!("{}/cols-{:?}.bin", self.dir, std::thread::current().id()).replace(['(', ')'], "")
    }
}
fn pil(e: &Value) -> PIL {
    let n = u(&e["n"]);
    let (mut refs, mut cm, mut cn, mut im) = (serde_json::Map::new(), 0, 0, 0);
    for d in l(&e["decls"]) {
        let kind = s(&d["kind"]);
        let top = u(&d["len"]);
        match kind {
            "cmP" => cm = cm.max(u(&d["id"]) + top),
            "constP" => cn += top,
            _ => im += top,
        }
        let mut r = json!({"type": kind, "id": u(&d["id"]), "polDeg": n, "isArray": b(&d["isArray"])});
        if b(&d["isArray"]) {
            r["len"] = json!(u(&d["len"]));
        }
        if !s(&d["elem"]).is_empty() {
            r["elementType"] = json!(s(&d["elem"]));
        }
        refs.insert(format!("{}.{}", s(&d["ns"]), s(&d["name"])), r);
    }
    serde_json::from_value(json!({"nCommitments": cm, "nQ": 0, "nIm": im, "nConstants": cn, "publics": [], "references": refs,
        "expressions": [], "polIdentities": [], "plookupIdentities": [], "permutationIdentities": [], "connectionIdentities": []}))
    .unwrap()
}
fn kind(k: &str) -> PolKind {
    if k == "cmP" { PolKind::Commit } else { PolKind::Constant }
}
fn bytes(f: &[u64]) -> Vec<u8> {
    f.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn cells(a: &PolsArray) -> Vec<Vec<u64>> {
    a.array.iter().map(|c| ungl(c)).collect()
}
impl M {
    fn declared(&self, e: &Value) -> R {
        let a = &self.arr;
        let n = us(&e["n"]);
        let mut seen = 0;
        for d in l(&e["decls"]) {
            if s(&d["kind"]) != self.kind {
                continue;
            }
            let (ns, np, id, len) = (s(&d["ns"]).to_string(), s(&d["name"]).to_string(), us(&d["id"]), us(&d["len"]));
            let ids: Vec<usize> = (id..id + len).collect();
            if a.def.get(&ns).and_then(|x| x.get(&np)) != Some(&ids) {
                return bad("def", format!("{ns}.{np} is mapped to {:?}, not to columns {ids:?}", a.def.get(&ns).and_then(|x| x.get(&np))));
            }
            for i in 0..len {
                seen += 1;
                let p = &a.defArray[id + i];
                let el = Some(s(&d["elem"]).to_string()).filter(|x| !x.is_empty());
                let idx = b(&d["isArray"]).then_some(i);
                if p.name != format!("{ns}.{np}") || p.id != id + i || p.idx != idx || p.polDeg != n || p.elementType != el {
                    return bad("defArray", format!("column {} is {p:?}", id + i));
                }
                if a.get_pol_id(self.pil.as_ref().unwrap(), &ns, &np, i) != id + i {
                    return bad("get_pol_id", format!("{ns}.{np}[{i}] is column {}", a.get_pol_id(self.pil.as_ref().unwrap(), &ns, &np, i)));
                }
            }
        }
        if a.nPols != seen || a.n != n || a.def.values().map(|x| x.len()).sum::<usize>() != l(&e["decls"]).iter().filter(|d| s(&d["kind"]) == self.kind).count() {
            return bad("shape", format!("{} columns of {} rows, {:?}", a.nPols, a.n, a.def));
        }
        Ok(())
    }
    fn large(&mut self, e: &Value) -> R {
        let p = pil(e);
        let n = us(&e["n"]);
        let (a, v, j) = (u(&e["i"]), u(&e["v"]), u(&e["j"]));
        let want = |c: usize, r: usize| gf::add(a, gf::add(gf::mul(v, c as u64), gf::mul(j, r as u64)));
        let mut arr = PolsArray::new(&p, PolKind::Commit);
        for c in 0..arr.nPols {
            for r in 0..n {
                arr.array[c][r] = gl(want(c, r));
            }
        }
        let path = self.path();
        arr.save(std::fs::File::create(&path).unwrap()).unwrap();
        let file = std::fs::read(&path).unwrap();
        let np = arr.nPols;
        drop(arr);
        let mut bads = None;
        if file.len() != 8 * np * n {
            return bad("save_large", format!("the file has {} bytes instead of {}", file.len(), 8 * np * n));
        }
        for (i, w) in file.chunks(8).enumerate() {
            if u64::from_le_bytes(w.try_into().unwrap()) != want(i % np, i / np) {
                bads = Some(("save_large", format!("word {i} of the file is wrong")));
                break;
            }
        }
        drop(file);
        let mut back = PolsArray::new(&p, PolKind::Commit);
        if bads.is_none() {
            match guard(|| back.load(&path)) {
                Some(Ok(())) => {
                    'o: for c in 0..np {
                        for r in 0..n {
                            if back.array[c][r].as_int() != want(c, r) {
                                bads = Some(("load_large", format!("row {r} of column {c} is wrong")));
                                break 'o;
                            }
                        }
                    }
                }
                o => bads = Some(("load_large", format!("{o:?}"))),
            }
        }
        if bads.is_none() {
            let f = std::fs::OpenOptions::new().write(true).open(&path).unwrap();
            f.set_len((8 * np * n) as u64 - u(&e["cut"])).unwrap();
            if let Some(Ok(())) = guard(|| back.load(&path)) {
                bads = Some(("load_bad", "a truncated large file was read".into()));
            }
        }
        std::fs::remove_file(&path).ok();
        match bads {
            Some((k, m)) => bad(k, m),
            None => Ok(()),
        }
    }
}
use fields::PrimeField;
impl Module for M {
    fn start(&mut self, st: &Value) -> R {
        if s(&st["last"]["op"]) == "new" { self.step(st) } else { Ok(()) }
    }
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let op = s(&e["op"]);
        let (ns, np, i, j) = (s(&e["ns"]).to_string(), s(&e["name"]).to_string(), us(&e["i"]), us(&e["j"]));
        match op {
            "large" => return self.large(e),
            "new" => {
                let p = pil(e);
                self.kind = s(&e["want"]).into();
                let k = kind(&self.kind);
                match guard(|| PolsArray::new(&p, k)) {
                    Some(a) => self.arr = a,
                    None => return bad("new", "PolsArray::new panicked".into()),
                }
                self.pil = Some(p);
                self.declared(e)?;
            }
            "hole" => {
                let p = pil(e);
                if let Some(a) = guard(|| PolsArray::new(&p, PolKind::Commit)) {
                    return bad("hole", format!("columns without a declaration accepted: {:?}", a.defArray));
                }
                return Ok(());
            }
            "set" => {
                let p = self.pil.as_ref().unwrap();
                self.arr.set_matrix(p, &ns, &np, i, j, gl(u(&e["v"])));
            }
            "get" => {
                let p = self.pil.as_ref().unwrap();
                let (g, id) = (self.arr.get(p, &ns, &np, i, j).as_int(), self.arr.get_pol_id(p, &ns, &np, i));
                if g != u(&e["v"]) || id != us(&e["id"]) {
                    return bad("get", format!("{ns}.{np}[{i}] row {j} is {g} in column {id}"));
                }
            }
            "save" => {
                let mut w = vec![];
                self.arr.save(&mut w).unwrap();
                if w != bytes(&lu(&e["file"])) {
                    return bad("save", format!("the file is {w:?}"));
                }
            }
            "load" | "load_bad" => {
                let mut f = bytes(&lu(&e["file"]));
                f.truncate(f.len() - us(&e["cut"]));
                let path = self.path();
                std::fs::write(&path, f).unwrap();
                if op == "load" {
                    let a = &mut self.arr;
                    let r = guard(|| a.load(&path));
                    std::fs::remove_file(&path).ok();
                    if !matches!(r, Some(Ok(()))) {
                        return bad("load", format!("{r:?}"));
                    }
                } else {
                    let mut a = PolsArray::new(self.pil.as_ref().unwrap(), kind(&self.kind));
                    let r = guard(|| a.load(&path));
                    std::fs::remove_file(&path).ok();
                    if let Some(Ok(())) = r {
                        return bad("load_bad", format!("a file with {} bytes missing (or a word out of range) was read", us(&e["cut"])));
                    }
                }
            }
            "buffer" => {
                let w: Vec<F3G> = self.arr.write_buff();
                let v: Vec<u64> = w.iter().map(|x| ungl(&x.cube)[0]).collect();
                if v != lu(&e["file"]) || w.iter().any(|x| x.cube[1..] != gls(&[0, 0])[..]) {
                    return bad("buffer", format!("the buffer holds {v:?}"));
                }
            }
            o => return bad("unknown", o.into()),
        }
        let c = cells(&self.arr);
        if c != llu(&e["cells"]) {
            return bad(&format!("cells_{op}"), format!("after {op} the cells are {c:?}"));
        }
        Ok(())
    }
}
