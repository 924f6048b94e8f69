//! Assembles small circuit modules with the interface circom's WebAssembly modules have.

pub struct Signal {
    pub hash: (u32, u32),
    /// witness positions base..base+len
    pub base: u32,
    pub len: u32,
}
pub struct Circuit {
    /// 32-bit words of a field element
    pub words: u32,
    pub prime: Vec<u32>,
    /// 0: no version function, as in circom 1
    pub version: u32,
    /// exports getInputSignalSize
    pub sizes: bool,
    pub signals: Vec<Signal>,
    /// initial witness values, `words` words each, least significant first
    pub witness: Vec<Vec<u32>>,
    /// pairs of witness positions whose values must agree once every input is set
    pub equal: Vec<(u32, u32)>,
}

fn leb(mut x: u32) -> Vec<u8> {
    let mut r = vec![];
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x == 0 {
            r.push(b);
            return r;
        }
        r.push(b | 0x80);
    }
}
fn sleb(x: i32) -> Vec<u8> {
    let mut x = x as i64;
    let mut r = vec![];
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if (x == 0 && b & 0x40 == 0) || (x == -1 && b & 0x40 != 0) {
            r.push(b);
            return r;
        }
        r.push(b | 0x80);
    }
}
fn cat(l: &[Vec<u8>]) -> Vec<u8> {
    l.concat()
}
fn c(x: u32) -> Vec<u8> {
    cat(&[vec![0x41], sleb(x as i32)])
}
fn get(x: u32) -> Vec<u8> {
    cat(&[vec![0x20], leb(x)])
}
fn call(f: u32) -> Vec<u8> {
    cat(&[vec![0x10], leb(f)])
}
const ADD: u8 = 0x6a;
const MUL: u8 = 0x6c;
const EQ: u8 = 0x46;
const NE: u8 = 0x47;
const GEU: u8 = 0x4f;
const IF: [u8; 2] = [0x04, 0x40];
const END: u8 = 0x0b;
const RET: u8 = 0x0f;
fn load(off: u32) -> Vec<u8> {
    cat(&[vec![0x28, 2], leb(off)])
}
fn store(off: u32) -> Vec<u8> {
    cat(&[vec![0x36, 2], leb(off)])
}
fn section(id: u8, body: Vec<u8>) -> Vec<u8> {
    cat(&[vec![id], leb(body.len() as u32), body])
}
fn vec_of(items: &[Vec<u8>]) -> Vec<u8> {
    cat(&[leb(items.len() as u32), items.concat()])
}
fn name(s: &str) -> Vec<u8> {
    cat(&[leb(s.len() as u32), s.as_bytes().to_vec()])
}

const PRIME: u32 = 256;
const COUNT: u32 = 512;
const START: u32 = 65536;
const VALUES: u32 = 1 << 20;

/// offsets: shared words at 0, the prime, the number of set inputs, the initial witness, the witness
pub fn module(m: &Circuit) -> Vec<u8> {
    let w = m.words;
    let n = m.witness.len() as u32;
    let total: u32 = m.signals.iter().map(|s| s.len).sum();
    let word = |x: u32| x.to_le_bytes().to_vec();
    // imports are functions 0 and 1
    let raise = |code: u32| {
        if m.version == 0 {
            cat(&[c(code), c(0), c(0), c(0), c(0), c(0), call(1)])
        } else {
            cat(&[c(code), call(0)])
        }
    };
    let mut prime = vec![];
    for j in 0..w {
        prime.push(cat(&[c(0), c(0), load(PRIME + 4 * j), store(4 * j)]));
    }
    let read = cat(&[get(0), c(4), vec![MUL], load(0)]);
    let write = cat(&[get(0), c(4), vec![MUL], get(1), store(0)]);
    // every signal is set already: exception 2, without effect
    let mut set = vec![cat(&[c(0), load(COUNT), c(total), vec![EQ], IF.to_vec(), raise(2), vec![RET], vec![END]])];
    let mut size = vec![];
    for s in &m.signals {
        size.push(cat(&[get(0), c(s.hash.0), vec![EQ], IF.to_vec(), get(1), c(s.hash.1), vec![EQ], IF.to_vec(), c(s.len), vec![RET, END, END]]));
        set.push(cat(&[get(0), c(s.hash.0), vec![EQ], IF.to_vec(), get(1), c(s.hash.1), vec![EQ], IF.to_vec()]));
        set.push(cat(&[get(2), c(s.len), vec![GEU], IF.to_vec(), raise(6), vec![RET], vec![END]]));
        for j in 0..w {
            set.push(cat(&[get(2), c(4 * w), vec![MUL], c(0), load(4 * j), store(VALUES + s.base * 4 * w + 4 * j)]));
        }
        set.push(cat(&[c(0), c(0), load(COUNT), c(1), vec![ADD], store(COUNT)]));
        set.push(cat(&[c(0), load(COUNT), c(total), vec![EQ], IF.to_vec()]));
        for (a, b) in &m.equal {
            for j in 0..w {
                set.push(cat(&[c(0), load(VALUES + a * 4 * w + 4 * j), c(0), load(VALUES + b * 4 * w + 4 * j), vec![NE], IF.to_vec(), raise(4), vec![RET], vec![END]]));
            }
        }
        set.push(vec![END, RET, END, END]);
    }
    set.push(raise(1));
    size.push(c(0));
    let mut wit = vec![];
    for j in 0..w {
        wit.push(cat(&[c(0), get(0), c(4 * w), vec![MUL], load(VALUES + 4 * j), store(4 * j)]));
    }
    // memory.copy is not used: the words are copied one by one in a loop over the local 1
    let init = cat(&[
        c(0), c(0), store(COUNT),
        c(0), vec![0x21, 1],
        vec![0x03, 0x40],
        get(1), get(1), load(START), store(VALUES),
        get(1), c(4), vec![ADD], vec![0x22, 1],
        c(4 * w * n), vec![0x49], vec![0x0d, 0],
        vec![END],
    ]);
    // (name, type, locals, body)
    let mut funcs: Vec<(&str, u32, u32, Vec<u8>)> = vec![
        ("init", 5, 1, init),
        ("getFieldNumLen32", 0, 0, c(w)),
        ("getRawPrime", 1, 0, prime.concat()),
        ("readSharedRWMemory", 2, 0, read),
        ("writeSharedRWMemory", 3, 0, write),
        ("setInputSignal", 4, 0, set.concat()),
        ("getWitness", 5, 0, wit.concat()),
        ("getWitnessSize", 0, 0, c(n)),
    ];
    if m.version > 0 {
        funcs.push(("getVersion", 0, 0, c(m.version)));
    }
    if m.sizes {
        funcs.push(("getInputSignalSize", 7, 0, size.concat()));
    }
    let f = |p: usize, r: usize| cat(&[vec![0x60], vec_of(&vec![vec![0x7f]; p]), vec_of(&vec![vec![0x7f]; r])]);
    let types = vec_of(&[f(0, 1), f(0, 0), f(1, 1), f(2, 0), f(3, 0), f(1, 0), f(6, 0), f(2, 1)]);
    let imports = vec_of(&[
        cat(&[name("env"), name("memory"), vec![2, 0], leb(2000)]),
        cat(&[name("runtime"), name("exceptionHandler"), vec![0], leb(5)]),
        cat(&[name("runtime"), name("error"), vec![0], leb(6)]),
    ]);
    let exports: Vec<Vec<u8>> = funcs.iter().enumerate().map(|(i, f)| cat(&[name(f.0), vec![0], leb(i as u32 + 2)])).collect();
    let codes: Vec<Vec<u8>> = funcs
        .iter()
        .map(|f| {
            let locals = if f.2 > 0 { vec_of(&[cat(&[leb(f.2), vec![0x7f]])]) } else { vec![0] };
            let body = cat(&[locals, f.3.clone(), vec![END]]);
            cat(&[leb(body.len() as u32), body])
        })
        .collect();
    let data = |off: u32, b: Vec<u8>| cat(&[vec![0], c(off), vec![END], leb(b.len() as u32), b]);
    let datas = vec_of(&[
        data(PRIME, m.prime.iter().flat_map(|x| word(*x)).collect()),
        data(START, m.witness.iter().flatten().flat_map(|x| word(*x)).collect()),
    ]);
    cat(&[
        b"\0asm\x01\0\0\0".to_vec(),
        section(1, types),
        section(2, imports),
        section(3, vec_of(&funcs.iter().map(|f| leb(f.1)).collect::<Vec<_>>())),
        section(7, vec_of(&exports)),
        section(10, vec_of(&codes)),
        section(11, datas),
    ])
}
