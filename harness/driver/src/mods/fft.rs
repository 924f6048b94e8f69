//! spec/fft.qnt on `starky::fft`, `starky::fft_p` and `starky::polutils`
use super::ext_field::Ext;
use crate::itf::*;
use crate::util::*;
use crate::{bad, Module, R};
use serde_json::Value;
use starky::fft::FFT;
use starky::{fft_p, polutils};

/// plain arithmetic mod p, to spell out the inputs the specification describes by formulas
pub mod gf {
    pub const P: u128 = 0xFFFFFFFF00000001;
    pub fn mul(a: u64, b: u64) -> u64 {
        (a as u128 * b as u128 % P) as u64
    }
    pub fn add(a: u64, b: u64) -> u64 {
        ((a as u128 + b as u128) % P) as u64
    }
    pub fn sub(a: u64, b: u64) -> u64 {
        ((a as u128 + P - b as u128) % P) as u64
    }
    pub fn pow(mut b: u64, mut e: u64) -> u64 {
        let mut r = 1;
        while e > 0 {
            if e & 1 == 1 {
                r = mul(r, b);
            }
            b = mul(b, b);
            e >>= 1;
        }
        r
    }
    pub fn inv(a: u64) -> u64 {
        pow(a, P as u64 - 2)
    }
}

pub struct M<F: Ext> {
    objs: Vec<FFT<F>>,
}
impl<F: Ext> Default for M<F> {
    fn default() -> Self {
        M { objs: vec![FFT::new(), FFT::new()] }
    }
}

fn load<F: Ext>(e: &[u64]) -> F {
    if e.len() == 1 {
        F::from(gl(e[0]))
    } else {
        F::make(&gls(e))
    }
}
fn loads<F: Ext>(v: &Value) -> Vec<F> {
    llu(v).iter().map(|e| load(e)).collect()
}
fn ints<F: Ext>(x: &F) -> Vec<u64> {
    ungl(&x.cube())
}
fn padded<F: Ext>(e: &[u64]) -> Vec<u64> {
    let mut r = e.to_vec();
    r.resize(F::D, 0);
    r
}
fn same<F: Ext>(op: &str, got: &[F], want: &Value) -> R {
    let want = llu(want);
    if got.len() != want.len() {
        return bad(op, format!("{op} gives {} values instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if ints(g) != padded::<F>(w) {
            return bad(op, format!("{op}: value {i} is {:?}, specified {w:?}", ints(g)));
        }
    }
    Ok(())
}
fn pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> Option<T> {
    let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
    guard(|| p.install(f))
}

struct Lane {
    geo: Vec<Vec<u64>>,
    mono: Vec<Vec<u64>>,
}
/// coefficients of the polynomial of a lane
fn coefs(l: &Lane, n: usize) -> Vec<u64> {
    let mut v = vec![0; n];
    for g in &l.geo {
        let mut r = g[0];
        for x in v.iter_mut() {
            *x = gf::add(*x, r);
            r = gf::mul(r, g[1]);
        }
    }
    for m in &l.mono {
        v[m[0] as usize] = gf::add(v[m[0] as usize], m[1]);
    }
    v
}
/// its values at 1, w, w^2, ...
fn values(l: &Lane, n: usize, w: u64) -> Vec<u64> {
    let mut v = vec![0; n];
    for g in &l.geo {
        // a (r^n - 1) / (r w^j - 1), all inverses at once
        let top = gf::mul(g[0], gf::sub(gf::pow(g[1], n as u64), 1));
        let mut d = Vec::with_capacity(n);
        let mut x = g[1];
        for _ in 0..n {
            d.push(gf::sub(x, 1));
            x = gf::mul(x, w);
        }
        let mut pre = vec![1u64; n + 1];
        for i in 0..n {
            pre[i + 1] = gf::mul(pre[i], d[i]);
        }
        let mut z = gf::inv(pre[n]);
        for i in (0..n).rev() {
            v[i] = gf::add(v[i], gf::mul(top, gf::mul(z, pre[i])));
            z = gf::mul(z, d[i]);
        }
    }
    for m in &l.mono {
        let step = gf::pow(w, m[0]);
        let mut r = m[1];
        for x in v.iter_mut() {
            *x = gf::add(*x, r);
            r = gf::mul(r, step);
        }
    }
    v
}

impl<F: Ext> M<F> {
    fn big(&mut self, e: &Value) -> R {
        let op = s(&e["op"]);
        let (bits, ext, cols, th) = (us(&e["bits"]), us(&e["ext"]), us(&e["cols"]), us(&e["threads"]));
        let (n, m, w) = (1usize << bits, 1usize << (bits + ext), u(&e["wn"]));
        let lanes: Vec<Lane> = l(&e["lanes"]).iter().map(|x| Lane { geo: llu(&x["geo"]), mono: llu(&x["mono"]) }).collect();
        let full = lanes.len() != cols;
        let d = if full { F::D } else { 1 };
        let spell: Vec<Vec<u64>> =
            lanes.iter().map(|x| if matches!(op, "big_fft" | "big_pfft") { coefs(x, n) } else { values(x, n, w) }).collect();
        let mut src: Vec<F> = Vec::with_capacity(n * cols);
        for i in 0..n {
            for c in 0..cols {
                let v: Vec<u64> = (0..d).map(|k| spell[c * d + k][i]).collect();
                src.push(load(&v));
            }
        }
        drop(spell);
        let obj = &mut self.objs[us(&e["obj"])];
        let out = match op {
            "big_fft" => guard(|| obj.fft(&src)),
            "big_ifft" => guard(|| obj.ifft(&src)),
            "big_extend" => guard(|| polutils::extend_pol(&src, ext)),
            _ => {
                let mut dst = vec![F::ZERO; m * cols];
                pool(th, || match op {
                    "big_pfft" => fft_p::fft(&src, cols, bits, &mut dst),
                    "big_pifft" => fft_p::ifft(&src, cols, bits, &mut dst),
                    _ => fft_p::interpolate(&src, cols, bits, &mut dst, bits + ext),
                })
                .map(|_| dst)
            }
        };
        let Some(out) = out else { return bad(op, format!("{op} of 2^{bits} rows of {cols} panicked")) };
        if out.len() != m * cols {
            return bad(op, format!("{op} gives {} values instead of {}", out.len(), m * cols));
        }
        let lane_at = |ln: usize, i: usize| ints(&out[i * cols + ln / d])[ln % d];
        for t in llu(&e["at"]) {
            let g = lane_at(t[0] as usize, t[1] as usize);
            if g != t[2] {
                return bad(op, format!("{op} of 2^{bits} rows of {cols} (threads {th}): lane {} position {} is {g}, specified {}", t[0], t[1], t[2]));
            }
        }
        let q = u(&e["s"]);
        for (ln, want) in lbig(&e["sums"]).iter().enumerate() {
            if *want < num_bigint::BigInt::from(0) {
                continue;
            }
            let mut t = 0u64;
            for i in (0..m).rev() {
                t = gf::add(gf::mul(t, q), lane_at(ln, i));
            }
            if num_bigint::BigInt::from(t) != *want {
                return bad(op, format!("{op} of 2^{bits} rows of {cols} (threads {th}): the weighted sum of lane {ln} is {t}, specified {want}"));
            }
        }
        if !full && out.iter().any(|x| ints(x)[1..].iter().any(|v| *v != 0)) {
            return bad(op, format!("{op}: base column has extension values"));
        }
        Ok(())
    }
}

impl<F: Ext> Module for M<F> {
    fn step(&mut self, st: &Value) -> R {
        let e = &st["last"];
        let op = s(&e["op"]);
        let (o, bits, ext, cols, th) = (us(&e["obj"]), us(&e["bits"]), us(&e["ext"]), us(&e["cols"]), us(&e["threads"]));
        let x: Vec<F> = if op == "br" { vec![] } else { loads(&e["x"]) };
        match op {
            "new" => {
                self.objs[o] = FFT::new();
                Ok(())
            }
            "fft" | "ifft" => {
                let obj = &mut self.objs[o];
                let Some(y) = guard(|| if op == "fft" { obj.fft(&x) } else { obj.ifft(&x) }) else {
                    return bad(op, format!("{op} of {} values panicked", x.len()));
                };
                same(op, &y, &e["y"])
            }
            "extend" => same(op, &polutils::extend_pol(&x, ext), &e["y"]),
            "axi" => {
                let mut y = x.clone();
                polutils::pol_mul_axi(&mut y, load::<F>(&lu(&e["a"])), &load::<F>(&lu(&e["b"])));
                same(op, &y, &e["y"])
            }
            "eval" => same(op, &[polutils::eval_pol(&x, &load::<F>(&lu(&e["a"])))], &e["y"]),
            "pfft" | "pifft" | "interp" => {
                let mut y = vec![F::ZERO; cols << (bits + ext)];
                let r = pool(th, || match op {
                    "pfft" => fft_p::fft(&x, cols, bits, &mut y),
                    "pifft" => fft_p::ifft(&x, cols, bits, &mut y),
                    _ => fft_p::interpolate(&x, cols, bits, &mut y, bits + ext),
                });
                if r.is_none() {
                    return bad(op, format!("{op} of 2^{bits} rows of {cols} panicked"));
                }
                same(op, &y, &e["y"])
            }
            "br" => {
                let (x, y) = (u(&llu_i(&e["x"])), u(&llu_i(&e["y"])));
                let g = fft_p::BR(x as usize, bits) as u64;
                if g != y {
                    return bad("br", format!("{x} reversed in {bits} bits is {g}"));
                }
                Ok(())
            }
            _ => self.big(e),
        }
    }
}
fn llu_i(v: &Value) -> Value {
    l(l(v)[0])[0].clone()
}
