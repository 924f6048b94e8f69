//! Runs circom text: computes the witness of the main component from given inputs and checks every constraint.
//! Templates may be given natively.  Errors tell unsatisfied constraints from text that is not a circuit.
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Err {
    /// a constraint or assertion does not hold
    Unsat(String),
    /// not a circuit: text, dimensions, non-quadratic constraints, inputs never given
    Broken(String),
}
type Res<T> = Result<T, Err>;
fn broken<T>(m: impl Into<String>) -> Res<T> {
    Err(Err::Broken(m.into()))
}

// ---------------------------------------------------------------- text
#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(BigUint),
    Str(String),
    Op(&'static str),
    End,
}
const OPS: [&str; 55] = [
    "<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "**", "++", "--", "+=", "-=", "*=", "/=", "\\=", "%=", "&=",
    "|=", "^=", "+", "-", "*", "/", "\\", "%", "<", ">", "!", "~", "&", "|", "^", "?", ":", "=", ";", ",", ".", "(", ")", "[", "]", "{", "}", "_", "@",
];
fn lex(s: &str) -> Res<Vec<(T, usize)>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut line = 1;
    let mut out = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if s[i..].starts_with("/*") {
            let e = s[i..].find("*/").ok_or(Err::Broken("comment".into()))?;
            line += s[i..i + e].matches('\n').count();
            i += e + 2;
            continue;
        }
        if c == b'"' {
            let e = s[i + 1..].find('"').ok_or(Err::Broken("string".into()))?;
            out.push((T::Str(s[i + 1..i + 1 + e].into()), line));
            i += e + 2;
            continue;
        }
        if c.is_ascii_digit() {
            let hex = s[i..].starts_with("0x");
            let st = if hex { i + 2 } else { i };
            let mut e = st;
            while e < b.len() && (b[e].is_ascii_digit() || (hex && b[e].is_ascii_hexdigit())) {
                e += 1;
            }
            let n = BigUint::parse_bytes(&b[st..e], if hex { 16 } else { 10 }).ok_or(Err::Broken("number".into()))?;
            out.push((T::Num(n), line));
            i = e;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let mut e = i;
            while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'_' || b[e] == b'$') {
                e += 1;
            }
            out.push((T::Id(s[i..e].into()), line));
            i = e;
            continue;
        }
        for o in OPS {
            if s[i..].starts_with(o) {
                out.push((T::Op(o), line));
                i += o.len();
                continue 'next;
            }
        }
        return broken(format!("line {line}: character {}", c as char));
    }
    out.push((T::End, line));
    Ok(out)
}

#[derive(Debug, Clone)]
enum X {
    Num(BigUint),
    Id(String),
    Arr(Vec<X>),
    Un(&'static str, Box<X>),
    Bin(&'static str, Box<X>, Box<X>),
    Cond(Box<X>, Box<X>, Box<X>),
    Index(Box<X>, Box<X>),
    Dot(Box<X>, String),
    /// a function or a template
    Call(String, Vec<X>),
    /// anonymous component
    Anon(String, Vec<X>, Vec<X>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    In,
    Out,
    Mid,
}
#[derive(Debug, Clone)]
enum S {
    Signal(Kind, Vec<(String, Vec<X>)>, Option<X>),
    Var(Vec<(String, Vec<X>, Option<X>)>),
    Comp(Vec<(String, Vec<X>)>, Option<X>),
    Assign(X, &'static str, X),
    Block(Vec<(S, usize)>),
    If(X, Box<(S, usize)>, Option<Box<(S, usize)>>),
    While(X, Box<(S, usize)>),
    For(Box<(S, usize)>, X, Box<(S, usize)>, Box<(S, usize)>),
    Return(X),
    Assert(X),
    Log,
}
struct Def {
    params: Vec<String>,
    body: Vec<(S, usize)>,
    /// statements up to the last declaration of an input
    prefix: usize,
}
pub type Native = fn(&Prog, &[BigInt], &Cells) -> Res<Cells>;
pub type Shape = Vec<(&'static str, Vec<usize>)>;
/// inputs and outputs of a native template for given parameters, and its values
#[derive(Clone)]
pub struct NativeDef {
    pub inputs: fn(&[BigInt]) -> Shape,
    pub run: Native,
}
pub type Cells = HashMap<String, Vec<BigUint>>;
#[derive(Default)]
pub struct Prog {
    pub p: BigUint,
    templates: HashMap<String, Rc<Def>>,
    functions: HashMap<String, Rc<Def>>,
    natives: HashMap<String, NativeDef>,
    main: Option<(Vec<String>, String, Vec<X>)>,
    /// template instances made directly by the template of this name are passed to `hook` with their outputs
    pub hook: Option<Box<dyn Fn(&str, &str, usize, &mut Cells)>>,
}

struct Parser {
    t: Vec<(T, usize)>,
    i: usize,
}
impl Parser {
    fn peek(&self) -> &T {
        &self.t[self.i].0
    }
    fn line(&self) -> usize {
        self.t[self.i].1
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, o: &str) -> bool {
        match self.peek() {
            T::Op(x) => *x == o,
            T::Id(x) => x == o,
            _ => false,
        }
    }
    fn eat(&mut self, o: &str) -> bool {
        let r = self.is(o);
        if r {
            self.next();
        }
        r
    }
    fn want(&mut self, o: &str) -> Res<()> {
        if self.eat(o) {
            Ok(())
        } else {
            broken(format!("line {}: expected {o}, found {:?}", self.line(), self.peek()))
        }
    }
    fn id(&mut self) -> Res<String> {
        match self.next() {
            T::Id(s) => Ok(s),
            t => broken(format!("line {}: expected a name, found {t:?}", self.line())),
        }
    }
    fn dims(&mut self) -> Res<Vec<X>> {
        let mut d = vec![];
        while self.eat("[") {
            d.push(self.expr()?);
            self.want("]")?;
        }
        Ok(d)
    }
    fn args(&mut self, close: &str) -> Res<Vec<X>> {
        let mut a = vec![];
        while !self.eat(close) {
            if !a.is_empty() {
                self.want(",")?;
            }
            a.push(self.expr()?);
        }
        Ok(a)
    }
    fn expr(&mut self) -> Res<X> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(X::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> Res<X> {
        const L: [&[&str]; 10] = [&["||"], &["&&"], &["==", "!=", "<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "\\", "%"], &["**"]];
        if lvl == L.len() {
            return self.unary();
        }
        let mut a = self.bin(lvl + 1)?;
        loop {
            let o = match self.peek() {
                T::Op(o) if L[lvl].contains(o) => *o,
                _ => return Ok(a),
            };
            self.next();
            let b = self.bin(lvl + 1)?;
            a = X::Bin(o, Box::new(a), Box::new(b));
        }
    }
    fn unary(&mut self) -> Res<X> {
        for o in ["-", "!", "~"] {
            if self.eat(o) {
                return Ok(X::Un(o, Box::new(self.unary()?)));
            }
        }
        self.eat("parallel");
        self.postfix()
    }
    fn postfix(&mut self) -> Res<X> {
        let mut x = match self.next() {
            T::Num(n) => X::Num(n),
            T::Op("(") => {
                let x = self.expr()?;
                self.want(")")?;
                x
            }
            T::Op("[") => X::Arr(self.args("]")?),
            T::Id(n) => {
                if self.eat("(") {
                    let a = self.args(")")?;
                    if self.eat("(") {
                        X::Anon(n, a, self.args(")")?)
                    } else {
                        X::Call(n, a)
                    }
                } else {
                    X::Id(n)
                }
            }
            t => return broken(format!("line {}: unexpected {t:?}", self.line())),
        };
        loop {
            if self.eat("[") {
                let i = self.expr()?;
                self.want("]")?;
                x = X::Index(Box::new(x), Box::new(i));
            } else if self.eat(".") {
                x = X::Dot(Box::new(x), self.id()?);
            } else {
                return Ok(x);
            }
        }
    }
    fn block(&mut self) -> Res<Vec<(S, usize)>> {
        self.want("{")?;
        let mut b = vec![];
        while !self.eat("}") {
            if *self.peek() == T::End {
                return broken("unexpected end");
            }
            b.push(self.stmt()?);
        }
        Ok(b)
    }
    fn simple(&mut self) -> Res<(S, usize)> {
        let line = self.line();
        let s = if self.eat("signal") {
            let k = if self.eat("input") {
                Kind::In
            } else if self.eat("output") {
                Kind::Out
            } else {
                Kind::Mid
            };
            let mut l = vec![];
            loop {
                let n = self.id()?;
                l.push((n, self.dims()?));
                if !self.eat(",") {
                    break;
                }
            }
            let v = if self.is("<==") || self.is("<--") {
                if self.is("<--") {
                    let (n, _) = l[0].clone();
                    self.next();
                    let e = self.expr()?;
                    return Ok((S::Block(vec![(S::Signal(k, l, None), line), (S::Assign(X::Id(n), "<--", e), line)]), line));
                }
                self.next();
                Some(self.expr()?)
            } else {
                None
            };
            S::Signal(k, l, v)
        } else if self.eat("var") {
            let mut l = vec![];
            loop {
                let n = self.id()?;
                let d = self.dims()?;
                let v = if self.eat("=") { Some(self.expr()?) } else { None };
                l.push((n, d, v));
                if !self.eat(",") {
                    break;
                }
            }
            S::Var(l)
        } else if self.eat("component") {
            let mut l = vec![];
            loop {
                let n = self.id()?;
                l.push((n, self.dims()?));
                if !self.eat(",") {
                    break;
                }
            }
            let v = if self.eat("=") { Some(self.expr()?) } else { None };
            S::Comp(l, v)
        } else {
            let a = self.expr()?;
            let o = match self.next() {
                T::Op(o) => o,
                t => return broken(format!("line {line}: expected an assignment, found {t:?}")),
            };
            match o {
                "++" => S::Assign(a, "+=", X::Num(1u32.into())),
                "--" => S::Assign(a, "-=", X::Num(1u32.into())),
                "==>" => S::Assign(self.expr()?, "<==", a),
                "-->" => S::Assign(self.expr()?, "<--", a),
                "<==" | "<--" | "===" | "=" | "+=" | "-=" | "*=" | "/=" | "\\=" | "%=" | "**=" | "<<=" | ">>=" | "&=" | "|=" | "^=" => S::Assign(a, o, self.expr()?),
                o => return broken(format!("line {line}: statement with {o}")),
            }
        };
        Ok((s, line))
    }
    fn stmt(&mut self) -> Res<(S, usize)> {
        let line = self.line();
        if self.is("{") {
            return Ok((S::Block(self.block()?), line));
        }
        if self.eat("if") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let a = self.stmt()?;
            let b = if self.eat("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok((S::If(c, Box::new(a), b), line));
        }
        if self.eat("for") {
            self.want("(")?;
            let a = self.simple()?;
            self.want(";")?;
            let c = self.expr()?;
            self.want(";")?;
            let b = self.simple()?;
            self.want(")")?;
            let s = self.stmt()?;
            return Ok((S::For(Box::new(a), c, Box::new(b), Box::new(s)), line));
        }
        if self.eat("while") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            return Ok((S::While(c, Box::new(self.stmt()?)), line));
        }
        if self.eat("return") {
            let x = self.expr()?;
            self.want(";")?;
            return Ok((S::Return(x), line));
        }
        if self.eat("assert") {
            self.want("(")?;
            let x = self.expr()?;
            self.want(")")?;
            self.want(";")?;
            return Ok((S::Assert(x), line));
        }
        if self.eat("log") {
            while !self.eat(";") {
                self.next();
            }
            return Ok((S::Log, line));
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
}

impl Prog {
    pub fn new(p: BigUint) -> Self {
        Self { p, ..Default::default() }
    }
    pub fn native(&mut self, name: &str, d: NativeDef) {
        self.natives.insert(name.into(), d);
    }
    pub fn parse(&mut self, text: &str) -> Res<()> {
        let mut ps = Parser { t: lex(text)?, i: 0 };
        while *ps.peek() != T::End {
            if ps.eat("pragma") || ps.eat("include") {
                while !ps.eat(";") {
                    if *ps.peek() == T::End {
                        return broken("pragma");
                    }
                    ps.next();
                }
                continue;
            }
            if ps.eat("component") {
                ps.want("main")?;
                let mut public = vec![];
                if ps.eat("{") {
                    ps.want("public")?;
                    ps.want("[")?;
                    while !ps.eat("]") {
                        public.push(ps.id()?);
                        ps.eat(",");
                    }
                    ps.want("}")?;
                }
                ps.want("=")?;
                match ps.expr()? {
                    X::Call(n, a) if self.main.is_none() => self.main = Some((public, n, a)),
                    _ => return broken("main component"),
                }
                ps.want(";")?;
                continue;
            }
            let tm = ps.eat("template");
            if !tm {
                ps.want("function")?;
            }
            ps.eat("parallel");
            let n = ps.id()?;
            ps.want("(")?;
            let mut params = vec![];
            while !ps.eat(")") {
                params.push(ps.id()?);
                ps.eat(",");
            }
            let body = ps.block()?;
            let prefix = body.iter().rposition(|s| matches!(s.0, S::Signal(Kind::In, ..))).map_or(0, |i| i + 1);
            let d = Rc::new(Def { params, body, prefix });
            if (if tm { &mut self.templates } else { &mut self.functions }).insert(n.clone(), d).is_some() {
                return broken(format!("{n} is defined twice"));
            }
        }
        Ok(())
    }
    pub fn public(&self) -> Vec<String> {
        self.main.as_ref().map_or(vec![], |m| m.0.clone())
    }
    /// names and lengths of the inputs of the main component; runs it with what `give` has for each
    pub fn run(&self, give: &dyn Fn(&str) -> Option<Vec<BigUint>>) -> Res<Cells> {
        let (public, name, args) = match &self.main {
            None => return broken("no main component"),
            Some(m) => m,
        };
        let mut top = Frame { vars: vec![HashMap::new()], ..Frame::new("") };
        let a = args.iter().map(|x| self.eval(&mut top, x)).collect::<Res<Vec<_>>>()?;
        let mut c = self.instance(name, a)?;
        for n in public {
            if c.cells(n, Kind::In).is_none() {
                return broken(format!("public {n} is not an input"));
            }
        }
        for n in c.names(Kind::In) {
            let v = match give(&n) {
                None => return broken(format!("input {n} has no value")),
                Some(v) => v,
            };
            let k = c.cells(&n, Kind::In).unwrap();
            if v.len() != k.data.len() {
                return broken(format!("input {n} has {} cells, {} given", k.data.len(), v.len()));
            }
            for (d, v) in k.data.iter_mut().zip(v) {
                *d = Some(v % &self.p);
            }
            c.missing -= k_len(&c, &n);
        }
        self.finish(&mut c)?;
        Ok(c.names(Kind::Out).into_iter().map(|n| (n.clone(), c.cells(&n, Kind::Out).unwrap().data.iter().map(|x| x.clone().unwrap_or_default()).collect())).collect())
    }
}
fn k_len(c: &Inst, n: &str) -> usize {
    match &c.body {
        Body::Native(_, ins, _) => ins[n].data.len(),
        Body::Circuit(f, _, _) => match f.vars[0].get(n) {
            Some(Slot::Sig(s)) => s.data.len(),
            _ => 0,
        },
    }
}

// ---------------------------------------------------------------- values
/// a number with its degree as an expression over signals (3: not quadratic), or an array
#[derive(Clone, Debug, PartialEq)]
enum V {
    N(BigUint, u8),
    A(Vec<V>),
}
struct Sig {
    kind: Kind,
    dims: Vec<usize>,
    data: Vec<Option<BigUint>>,
}
struct Comps {
    dims: Vec<usize>,
    data: Vec<Option<Box<Inst>>>,
}
enum Slot {
    Var(V),
    Sig(Sig),
    Comp(Comps),
}
struct Frame {
    name: String,
    vars: Vec<HashMap<String, Slot>>,
    /// instances made so far, by template
    made: HashMap<String, usize>,
}
impl Frame {
    fn new(name: &str) -> Self {
        Frame { name: name.into(), vars: vec![HashMap::new()], made: HashMap::new() }
    }
}
enum Body {
    Circuit(Frame, Rc<Def>, bool),
    Native(Vec<BigInt>, HashMap<String, Sig>, HashMap<String, Sig>),
}
pub struct Inst {
    name: String,
    body: Body,
    missing: usize,
    done: bool,
}
impl Inst {
    fn cells(&mut self, n: &str, k: Kind) -> Option<&mut Sig> {
        match &mut self.body {
            Body::Native(_, i, o) => if k == Kind::In { i.get_mut(n) } else { o.get_mut(n) },
            Body::Circuit(f, _, _) => match f.vars[0].get_mut(n) {
                Some(Slot::Sig(s)) if s.kind == k => Some(s),
                _ => None,
            },
        }
    }
    fn names(&self, k: Kind) -> Vec<String> {
        match &self.body {
            Body::Native(_, i, o) => (if k == Kind::In { i } else { o }).keys().cloned().collect(),
            Body::Circuit(f, _, _) => f.vars[0].iter().filter(|(_, s)| matches!(s, Slot::Sig(s) if s.kind == k)).map(|(n, _)| n.clone()).collect(),
        }
    }
}
fn flatten(v: &V, out: &mut Vec<(BigUint, u8)>) {
    match v {
        V::N(n, d) => out.push((n.clone(), *d)),
        V::A(l) => l.iter().for_each(|x| flatten(x, out)),
    }
}
fn shape(v: &V) -> Vec<usize> {
    match v {
        V::N(..) => vec![],
        V::A(l) => [vec![l.len()], l.first().map_or(vec![], shape)].concat(),
    }
}
fn fold(dims: &[usize], d: &mut dyn FnMut() -> Res<V>) -> Res<V> {
    if dims.is_empty() {
        return d();
    }
    Ok(V::A((0..dims[0]).map(|_| fold(&dims[1..], d)).collect::<Res<Vec<_>>>()?))
}
fn offset(dims: &[usize], idx: &[usize]) -> Res<(usize, usize)> {
    if idx.len() > dims.len() {
        return broken("too many indices");
    }
    let mut o = 0;
    for (k, d) in dims.iter().enumerate() {
        let i = *idx.get(k).unwrap_or(&0);
        if i >= *d && k < idx.len() {
            return broken(format!("index {i} out of {d}"));
        }
        o = o * d + i;
    }
    Ok((o, dims[idx.len()..].iter().product()))
}

enum Flow {
    Next,
    Return(V),
}
/// a path: a name, indices, and the name and indices of a signal of a component
type Path = (String, Vec<usize>, Option<(String, Vec<usize>)>);

impl Prog {
    fn signed(&self, x: &BigUint) -> BigInt {
        let v = BigInt::from(x.clone());
        if x > &(&self.p >> 1) {
            v - BigInt::from(self.p.clone())
        } else {
            v
        }
    }
    pub fn red(&self, x: BigInt) -> BigUint {
        let p = BigInt::from(self.p.clone());
        let r = x % &p;
        (if r.sign() == Sign::Minus { r + p } else { r }).to_biguint().unwrap()
    }
    pub fn inv(&self, x: &BigUint) -> BigUint {
        x.modpow(&(&self.p - 2u32), &self.p)
    }
    fn num(&self, f: &mut Frame, x: &X) -> Res<(BigUint, u8)> {
        match self.eval(f, x)? {
            V::N(n, d) => Ok((n, d)),
            v => broken(format!("an array of {:?} where a number is needed", shape(&v))),
        }
    }
    fn index(&self, f: &mut Frame, x: &X) -> Res<usize> {
        let (n, d) = self.num(f, x)?;
        if d > 0 {
            return broken("an index depends on a signal");
        }
        n.to_usize().ok_or(Err::Broken(format!("index {n}")))
    }
    fn path(&self, f: &mut Frame, x: &X) -> Res<Path> {
        match x {
            X::Id(n) => Ok((n.clone(), vec![], None)),
            X::Index(a, i) => {
                let mut p = self.path(f, a)?;
                let i = self.index(f, i)?;
                match &mut p.2 {
                    None => p.1.push(i),
                    Some(s) => s.1.push(i),
                }
                Ok(p)
            }
            X::Dot(a, n) => {
                let mut p = self.path(f, a)?;
                if p.2.is_some() {
                    return broken("signal of a signal");
                }
                p.2 = Some((n.clone(), vec![]));
                Ok(p)
            }
            _ => broken("not a place"),
        }
    }
    fn slot<'a>(&self, f: &'a mut Frame, n: &str) -> Res<&'a mut Slot> {
        let name = &f.name;
        let e = Err::Broken(format!("{n} is not declared in {name}"));
        f.vars.iter_mut().rev().find_map(|s| s.get_mut(n)).ok_or(e)
    }
    fn read(&self, f: &mut Frame, p: &Path) -> Res<V> {
        let fname = f.name.clone();
        match (self.slot(f, &p.0)?, &p.2) {
            (Slot::Var(v), None) => {
                let mut v = &*v;
                for i in &p.1 {
                    v = match v {
                        V::A(l) if *i < l.len() => &l[*i],
                        _ => return broken(format!("index {i} of {}", p.0)),
                    };
                }
                Ok(v.clone())
            }
            (Slot::Sig(s), None) => {
                let (mut o, _) = offset(&s.dims, &p.1).map_err(|e| Err::Broken(format!("{}: {e:?}", p.0)))?;
                fold(&s.dims[p.1.len()..], &mut || {
                    o += 1;
                    match &s.data[o - 1] {
                        Some(x) => Ok(V::N(x.clone(), 1)),
                        None => broken(format!("{}.{} is read before it has a value", fname, p.0)),
                    }
                })
            }
            (Slot::Comp(c), Some((sn, si))) => {
                let (o, n) = offset(&c.dims, &p.1)?;
                let c = match &mut c.data[o..o + n] {
                    [Some(c)] => c,
                    _ => return broken(format!("{} is not a component yet", p.0)),
                };
                let done = c.done;
                let s = match c.cells(sn, Kind::Out) {
                    Some(s) if done => s,
                    Some(_) => return broken(format!("{}.{sn} is read before the inputs of {} have values", p.0, p.0)),
                    None => match c.cells(sn, Kind::In) {
                        Some(s) => s,
                        None => return broken(format!("{} has no {sn}", p.0)),
                    },
                };
                let (mut o, _) = offset(&s.dims, si)?;
                fold(&s.dims[si.len()..], &mut || {
                    o += 1;
                    match &s.data[o - 1] {
                        Some(x) => Ok(V::N(x.clone(), 1)),
                        None => broken(format!("{}.{sn} is read before it has a value", p.0)),
                    }
                })
            }
            _ => broken(format!("{} is not a value", p.0)),
        }
    }
    fn arith(&self, o: &str, a: &BigUint, da: u8, b: &BigUint, db: u8) -> Res<(BigUint, u8)> {
        let p = &self.p;
        let bit = |c: bool| BigUint::from(c as u32);
        let hard = if da == 0 && db == 0 { 0 } else { 3 };
        let sh = |a: &BigUint, b: &BigUint, left: bool| {
            // a shift by more than half of the field is a shift the other way
            let (n, left) = if b > &(p >> 1) { ((p - b).to_u64(), !left) } else { (b.to_u64(), left) };
            match n {
                Some(n) if n < 1024 => if left { (a << n) % p } else { a >> n },
                _ => BigUint::zero(),
            }
        };
        Ok(match o {
            // the degree of a sum of quadratic expressions is not that of one product
            "+" | "-" => {
                let v = if o == "+" { (a + b) % p } else { (a + p - b) % p };
                (v, if da == 2 && db == 2 { 3 } else { da.max(db) })
            }
            "*" => ((a * b) % p, if da + db > 2 { 3 } else { da + db }),
            "/" => {
                if b.is_zero() {
                    return broken("division by zero");
                }
                ((a * self.inv(b)) % p, if db == 0 { da } else { 3 })
            }
            "\\" | "%" if b.is_zero() => return broken("division by zero"),
            "\\" => (a / b, hard),
            "%" => (a % b, hard),
            "**" => (a.modpow(b, p), if da == 0 && db == 0 { 0 } else if db == 0 && b == &BigUint::from(2u32) && da == 1 { 2 } else if db == 0 && b.is_one() { da } else { 3 }),
            "<<" => (sh(a, b, true), hard),
            ">>" => (sh(a, b, false), hard),
            "&" => (a & b, hard),
            "|" => ((a | b) % p, hard),
            "^" => ((a ^ b) % p, hard),
            "==" => (bit(a == b), hard),
            "!=" => (bit(a != b), hard),
            "<" => (bit(self.signed(a) < self.signed(b)), hard),
            ">" => (bit(self.signed(a) > self.signed(b)), hard),
            "<=" => (bit(self.signed(a) <= self.signed(b)), hard),
            ">=" => (bit(self.signed(a) >= self.signed(b)), hard),
            "&&" => (bit(!a.is_zero() && !b.is_zero()), hard),
            "||" => (bit(!a.is_zero() || !b.is_zero()), hard),
            o => return broken(format!("operator {o}")),
        })
    }
    fn eval(&self, f: &mut Frame, x: &X) -> Res<V> {
        Ok(match x {
            X::Num(n) => V::N(n % &self.p, 0),
            X::Id(_) | X::Index(..) | X::Dot(..) => {
                // a value may be indexed too
                let p = self.path(f, x)?;
                self.read(f, &p)?
            }
            X::Arr(l) => V::A(l.iter().map(|x| self.eval(f, x)).collect::<Res<Vec<_>>>()?),
            X::Un(o, a) => {
                let (a, d) = self.num(f, a)?;
                match *o {
                    "-" => V::N((&self.p - a) % &self.p, d),
                    "!" => V::N(BigUint::from(a.is_zero() as u32), if d == 0 { 0 } else { 3 }),
                    _ => return broken("operator ~"),
                }
            }
            X::Bin(o, a, b) => {
                let (a, da) = self.num(f, a)?;
                let (b, db) = self.num(f, b)?;
                let (v, d) = self.arith(o, &a, da, &b, db)?;
                V::N(v, d)
            }
            X::Cond(c, a, b) => {
                let (c, _) = self.num(f, c)?;
                self.eval(f, if c.is_zero() { b } else { a })?
            }
            X::Call(n, a) => {
                let a = a.iter().map(|x| self.eval(f, x)).collect::<Res<Vec<_>>>()?;
                let d = self.functions.get(n).ok_or(Err::Broken(format!("no function {n}")))?;
                if d.params.len() != a.len() {
                    return broken(format!("arguments of {n}"));
                }
                let mut g = Frame::new(n);
                // what a function computes from signals is no expression over them
                let deg = {
                    let mut l = vec![];
                    a.iter().for_each(|v| flatten(v, &mut l));
                    l.iter().any(|x| x.1 > 0)
                };
                for (k, v) in d.params.iter().zip(a) {
                    g.vars[0].insert(k.clone(), Slot::Var(v));
                }
                match self.stmts(&mut g, &d.body)? {
                    Flow::Return(v) => {
                        fn hard(v: V) -> V {
                            match v {
                                V::N(n, _) => V::N(n, 3),
                                V::A(l) => V::A(l.into_iter().map(hard).collect()),
                            }
                        }
                        if deg { hard(v) } else { v }
                    }
                    Flow::Next => return broken(format!("{n} returns nothing")),
                }
            }
            X::Anon(n, a, ins) => {
                let a = a.iter().map(|x| self.eval(f, x)).collect::<Res<Vec<_>>>()?;
                let mut c = self.instance(n, a)?;
                let order = self.inputs_in_order(n, &c);
                if order.len() != ins.len() {
                    return broken(format!("inputs of {n}"));
                }
                for (k, x) in order.iter().zip(ins) {
                    let v = self.eval(f, x)?;
                    self.give(&mut c, k, &[], &v, true)?;
                }
                self.run_inst(f, &mut c)?;
                if !c.done {
                    return broken(format!("{n} lacks inputs"));
                }
                let outs = c.names(Kind::Out);
                if outs.len() != 1 {
                    return broken(format!("outputs of {n}"));
                }
                let s = c.cells(&outs[0], Kind::Out).unwrap();
                let mut o = 0;
                let (dims, data) = (s.dims.clone(), &s.data);
                fold(&dims, &mut || {
                    o += 1;
                    data[o - 1].clone().map(|x| V::N(x, 1)).ok_or(Err::Broken(format!("an output of {n} has no value")))
                })?
            }
        })
    }
    fn inputs_in_order(&self, name: &str, c: &Inst) -> Vec<String> {
        match &c.body {
            Body::Native(a, _, _) => {
                let s = (self.natives[name].inputs)(a);
                s.iter().filter(|x| !x.0.starts_with('>')).map(|x| x.0.to_string()).collect()
            }
            Body::Circuit(_, d, _) => d.body.iter().filter_map(|s| if let S::Signal(Kind::In, l, _) = &s.0 { Some(l) } else { None }).flatten().map(|x| x.0.clone()).collect(),
        }
    }
    fn instance(&self, name: &str, args: Vec<V>) -> Res<Inst> {
        if let Some(n) = self.natives.get(name) {
            let a = args
                .iter()
                .map(|v| match v {
                    V::N(n, 0) => Ok(self.signed(n)),
                    _ => broken(format!("parameters of {name}")),
                })
                .collect::<Res<Vec<_>>>()?;
            let mut i = HashMap::new();
            let mut o = HashMap::new();
            for (n, dims) in (n.inputs)(&a) {
                let len = dims.iter().product();
                let s = |k| Sig { kind: k, dims: dims.clone(), data: vec![None; len] };
                match n.strip_prefix('>') {
                    Some(n) => o.insert(n.to_string(), s(Kind::Out)),
                    None => i.insert(n.to_string(), s(Kind::In)),
                };
            }
            let missing = i.values().map(|s| s.data.len()).sum();
            return Ok(Inst { name: name.into(), body: Body::Native(a, i, o), missing, done: false });
        }
        let d = self.templates.get(name).ok_or(Err::Broken(format!("no template {name}")))?.clone();
        if d.params.len() != args.len() {
            return broken(format!("parameters of {name}"));
        }
        let mut f = Frame::new(name);
        for (k, v) in d.params.iter().zip(args) {
            f.vars[0].insert(k.clone(), Slot::Var(v));
        }
        for s in &d.body[..d.prefix] {
            self.stmt(&mut f, s)?;
        }
        let missing = f.vars[0].values().map(|s| if let Slot::Sig(Sig { kind: Kind::In, data, .. }) = s { data.len() } else { 0 }).sum();
        Ok(Inst { name: name.into(), body: Body::Circuit(f, d, false), missing, done: false })
    }
    /// gives values to an input of a component
    fn give(&self, c: &mut Inst, n: &str, idx: &[usize], v: &V, constrained: bool) -> Res<()> {
        let mut l = vec![];
        flatten(v, &mut l);
        let name = c.name.clone();
        let s = c.cells(n, Kind::In).ok_or(Err::Broken(format!("{name} has no input {n}")))?;
        let (o, len) = offset(&s.dims, idx).map_err(|e| Err::Broken(format!("{name}.{n}: {e:?}")))?;
        if shape(v) != s.dims[idx.len()..] {
            return broken(format!("{name}.{n}: {:?} given {:?}", &s.dims[idx.len()..], shape(v)));
        }
        for (k, (x, d)) in l.into_iter().enumerate() {
            if constrained && d > 2 {
                return broken(format!("{name}.{n} is given an expression that is not quadratic"));
            }
            if s.data[o + k].replace(x).is_some() {
                return broken(format!("{name}.{n} is given twice"));
            }
        }
        c.missing -= len;
        Ok(())
    }
    fn finish(&self, c: &mut Inst) -> Res<()> {
        if c.done || c.missing > 0 {
            return Ok(());
        }
        c.done = true;
        let name = c.name.clone();
        match &mut c.body {
            Body::Native(a, i, o) => {
                let ins: Cells = i.iter().map(|(n, s)| (n.clone(), s.data.iter().map(|x| x.clone().unwrap()).collect())).collect();
                let r = (self.natives[&name].run)(self, a, &ins)?;
                for (n, s) in o.iter_mut() {
                    s.data = r[n].iter().cloned().map(Some).collect();
                }
            }
            Body::Circuit(f, d, started) => {
                assert!(!*started);
                *started = true;
                let d = d.clone();
                self.stmts(f, &d.body[d.prefix..])?;
                for (n, s) in &f.vars[0] {
                    match s {
                        Slot::Sig(s) if s.kind == Kind::Out && s.data.iter().any(|x| x.is_none()) => return broken(format!("{name}.{n} has no value")),
                        Slot::Comp(c) => {
                            for c in &c.data {
                                match c {
                                    Some(c) if c.done => {}
                                    Some(_) => return broken(format!("{name}.{n} lacks inputs")),
                                    // never made: nothing to check
                                    None => {}
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }
    fn run_inst(&self, f: &mut Frame, c: &mut Inst) -> Res<()> {
        if c.done || c.missing > 0 {
            return Ok(());
        }
        self.finish(c)?;
        if let Some(h) = &self.hook {
            let k = f.made.entry(c.name.clone()).or_insert(0);
            let name = c.name.clone();
            let mut o: Cells = c.names(Kind::Out).into_iter().map(|n| (n.clone(), c.cells(&n, Kind::Out).unwrap().data.iter().map(|x| x.clone().unwrap()).collect())).collect();
            h(&f.name, &name, *k, &mut o);
            *k += 1;
            for (n, v) in o {
                c.cells(&n, Kind::Out).unwrap().data = v.into_iter().map(Some).collect();
            }
        }
        Ok(())
    }
    fn stmts(&self, f: &mut Frame, l: &[(S, usize)]) -> Res<Flow> {
        for s in l {
            if let Flow::Return(v) = self.stmt(f, s)? {
                return Ok(Flow::Return(v));
            }
        }
        Ok(Flow::Next)
    }
    fn stmt(&self, f: &mut Frame, s: &(S, usize)) -> Res<Flow> {
        self.stmt_(f, &s.0).map_err(|e| {
            let at = |m: String| if m.starts_with("at ") { m } else { format!("at {}:{}: {m}", f.name, s.1) };
            match e {
                Err::Unsat(m) => Err::Unsat(at(m)),
                Err::Broken(m) => Err::Broken(at(m)),
            }
        })
    }
    fn declare(&self, f: &mut Frame, n: &str, s: Slot) -> Res<()> {
        // signals and components belong to the template, wherever they are declared
        let at = if matches!(s, Slot::Var(_)) { f.vars.len() - 1 } else { 0 };
        let old = f.vars[at].insert(n.to_string(), s);
        if let Some(o) = old {
            if !matches!(o, Slot::Var(_)) || at == 0 {
                return broken(format!("{n} is declared twice"));
            }
        }
        Ok(())
    }
    fn scoped(&self, f: &mut Frame, s: &(S, usize)) -> Res<Flow> {
        f.vars.push(HashMap::new());
        let r = self.stmt(f, s);
        f.vars.pop();
        r
    }
    fn stmt_(&self, f: &mut Frame, s: &S) -> Res<Flow> {
        match s {
            S::Signal(k, l, v) => {
                for (n, d) in l {
                    let dims = d.iter().map(|x| self.index(f, x)).collect::<Res<Vec<_>>>()?;
                    let len = dims.iter().product();
                    self.declare(f, n, Slot::Sig(Sig { kind: *k, dims, data: vec![None; len] }))?;
                }
                if let Some(v) = v {
                    if l.len() != 1 {
                        return broken("several signals with one value");
                    }
                    return self.assign(f, &X::Id(l[0].0.clone()), "<==", v);
                }
            }
            S::Var(l) => {
                for (n, d, v) in l {
                    let dims = d.iter().map(|x| self.index(f, x)).collect::<Res<Vec<_>>>()?;
                    let v = match v {
                        Some(v) => {
                            let v = self.eval(f, v)?;
                            if shape(&v) != dims {
                                return broken(format!("var {n} has {dims:?}, given {:?}", shape(&v)));
                            }
                            v
                        }
                        None => fold(&dims, &mut || Ok(V::N(BigUint::zero(), 0)))?,
                    };
                    self.declare(f, n, Slot::Var(v))?;
                }
            }
            S::Comp(l, v) => {
                for (n, d) in l {
                    let dims = d.iter().map(|x| self.index(f, x)).collect::<Res<Vec<_>>>()?;
                    let len = dims.iter().product();
                    self.declare(f, n, Slot::Comp(Comps { dims, data: (0..len).map(|_| None).collect() }))?;
                }
                if let Some(v) = v {
                    return self.assign(f, &X::Id(l[0].0.clone()), "=", v);
                }
            }
            S::Assign(a, o, b) => return self.assign(f, a, o, b),
            S::Block(l) => {
                f.vars.push(HashMap::new());
                let r = self.stmts(f, l);
                f.vars.pop();
                return r;
            }
            S::If(c, a, b) => {
                let (c, _) = self.num(f, c)?;
                if !c.is_zero() {
                    return self.scoped(f, a);
                } else if let Some(b) = b {
                    return self.scoped(f, b);
                }
            }
            S::While(c, b) => {
                while !self.num(f, c)?.0.is_zero() {
                    if let Flow::Return(v) = self.scoped(f, b)? {
                        return Ok(Flow::Return(v));
                    }
                }
            }
            S::For(a, c, b, s) => {
                f.vars.push(HashMap::new());
                let r = (|| {
                    self.stmt(f, a)?;
                    while !self.num(f, c)?.0.is_zero() {
                        if let Flow::Return(v) = self.scoped(f, s)? {
                            return Ok(Flow::Return(v));
                        }
                        self.stmt(f, b)?;
                    }
                    Ok(Flow::Next)
                })();
                f.vars.pop();
                return r;
            }
            S::Return(x) => return Ok(Flow::Return(self.eval(f, x)?)),
            S::Assert(x) => {
                if self.num(f, x)?.0.is_zero() {
                    return Err(Err::Unsat("assertion".into()));
                }
            }
            S::Log => {}
        }
        Ok(Flow::Next)
    }
    fn assign(&self, f: &mut Frame, a: &X, o: &'static str, b: &X) -> Res<Flow> {
        if o == "===" {
            let mut l = vec![];
            let mut r = vec![];
            let (x, y) = (self.eval(f, a)?, self.eval(f, b)?);
            if shape(&x) != shape(&y) {
                return broken("arrays of different dimensions");
            }
            flatten(&x, &mut l);
            flatten(&y, &mut r);
            for ((x, dx), (y, dy)) in l.into_iter().zip(r) {
                if dx > 2 || dy > 2 || (dx == 2 && dy == 2) {
                    return broken("the constraint is not quadratic");
                }
                if x != y {
                    return Err(Err::Unsat(format!("{x} === {y}")));
                }
            }
            return Ok(Flow::Next);
        }
        let p = self.path(f, a)?;
        // components
        if let (Slot::Comp(c), None) = (self.slot(f, &p.0)?, &p.2) {
            let (k, n) = offset(&c.dims, &p.1)?;
            if o != "=" || n != 1 || c.data[k].is_some() {
                return broken(format!("component {}", p.0));
            }
            let X::Call(t, args) = b else { return broken(format!("component {}", p.0)) };
            let args = args.iter().map(|x| self.eval(f, x)).collect::<Res<Vec<_>>>()?;
            let mut i = self.instance(t, args)?;
            self.run_inst(f, &mut i)?;
            let Slot::Comp(c) = self.slot(f, &p.0)? else { unreachable!() };
            c.data[k] = Some(Box::new(i));
            return Ok(Flow::Next);
        }
        let v = if let Some(base) = o.strip_suffix('=').filter(|x| !x.is_empty() && *x != "<=") {
            let V::N(x, dx) = self.read(f, &p)? else { return broken("arithmetic on arrays") };
            let (y, dy) = self.num(f, b)?;
            let (v, d) = self.arith(base, &x, dx, &y, dy)?;
            V::N(v, d)
        } else {
            self.eval(f, b)?
        };
        if let Some((sn, si)) = &p.2 {
            if o != "<==" && o != "<--" {
                return broken(format!("{} {o}", p.0));
            }
            // the component is taken out while it runs
            let Slot::Comp(c) = self.slot(f, &p.0)? else { return broken(format!("{} is no component", p.0)) };
            let (k, n) = offset(&c.dims, &p.1)?;
            if n != 1 {
                return broken(format!("{} is an array", p.0));
            }
            let Some(mut c) = c.data[k].take() else { return broken(format!("{} is no component yet", p.0)) };
            let r = self.give(&mut c, sn, si, &v, o == "<==").and_then(|_| self.run_inst(f, &mut c));
            let Slot::Comp(s) = self.slot(f, &p.0)? else { unreachable!() };
            s.data[k] = Some(c);
            r?;
            return Ok(Flow::Next);
        }
        let name = f.name.clone();
        match self.slot(f, &p.0)? {
            Slot::Var(x) => {
                if o == "<==" || o == "<--" {
                    return broken(format!("{} is no signal", p.0));
                }
                let mut x = x;
                for i in &p.1 {
                    x = match x {
                        V::A(l) if *i < l.len() => &mut l[*i],
                        _ => return broken(format!("index {i} of {}", p.0)),
                    };
                }
                if shape(x) != shape(&v) {
                    return broken(format!("{} has other dimensions", p.0));
                }
                *x = v;
            }
            Slot::Sig(s) => {
                if (o != "<==" && o != "<--") || s.kind == Kind::In {
                    return broken(format!("signal {name}.{} {o}", p.0));
                }
                let (k, _) = offset(&s.dims, &p.1).map_err(|e| Err::Broken(format!("{}: {e:?}", p.0)))?;
                if s.dims[p.1.len()..] != shape(&v) {
                    return broken(format!("signal {} {:?} is given {:?}", p.0, &s.dims[p.1.len()..], shape(&v)));
                }
                let mut l = vec![];
                flatten(&v, &mut l);
                for (j, (x, d)) in l.into_iter().enumerate() {
                    if o == "<==" && d > 2 {
                        return broken(format!("{}.{} is given an expression that is not quadratic", name, p.0));
                    }
                    if s.data[k + j].replace(x).is_some() {
                        return broken(format!("{}.{} is given twice", name, p.0));
                    }
                }
            }
            Slot::Comp(_) => return broken(format!("{} {o}", p.0)),
        }
        Ok(Flow::Next)
    }
}
