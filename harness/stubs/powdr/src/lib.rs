//! A stand-in for the `powdr` compiler, which cannot be fetched here: the types recursion/src/pilcom reads
//! and an analyser for the PIL that the recursion crate and the checks write.
pub mod number {
    use std::fmt;
    pub trait FieldElement: Copy + fmt::Display + fmt::Debug + PartialEq + Eq {
        fn from_decimal(s: &str) -> Self;
        fn from_hex(s: &str) -> Self;
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct GoldilocksField(pub u64);
    const P: u128 = 0xFFFF_FFFF_0000_0001;
    impl fmt::Display for GoldilocksField {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    fn digits(s: &str, b: u32) -> u64 {
        s.chars().fold(0u128, |a, c| (a * b as u128 + c.to_digit(b).expect("digit") as u128) % P) as u64
    }
    impl FieldElement for GoldilocksField {
        fn from_decimal(s: &str) -> Self {
            GoldilocksField(digits(s, 10))
        }
        fn from_hex(s: &str) -> Self {
            GoldilocksField(digits(s, 16))
        }
    }
}

pub mod ast {
    pub mod analyzed {
        use powdr_parser_util::SourceRef;
        use std::collections::HashMap;

        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum PolynomialType {
            Committed,
            Constant,
            Intermediate,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct PolyID {
            pub id: u64,
            pub ptype: PolynomialType,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum SymbolKind {
            Poly(PolynomialType),
            Other(),
        }
        #[derive(Debug, Clone)]
        pub struct Symbol {
            pub id: u64,
            pub absolute_name: String,
            pub kind: SymbolKind,
            pub length: Option<u64>,
        }
        impl Symbol {
            pub fn is_array(&self) -> bool {
                self.length.is_some()
            }
            pub fn array_elements(&self) -> impl Iterator<Item = (String, PolyID)> + '_ {
                let SymbolKind::Poly(ptype) = self.kind else { panic!("array_elements of another symbol") };
                let len = self.length.unwrap_or(1);
                (0..len).map(move |i| {
                    let n = if self.is_array() { format!("{}[{i}]", self.absolute_name) } else { self.absolute_name.clone() };
                    (n, PolyID { id: self.id + i, ptype })
                })
            }
        }
        #[derive(Debug, Clone)]
        pub struct PolynomialReference {
            pub name: String,
            pub poly_id: Option<PolyID>,
        }
        #[derive(Debug, Clone)]
        pub struct PublicDeclaration {
            pub id: u64,
            pub name: String,
            pub polynomial: PolynomialReference,
            pub array_index: Option<usize>,
            pub index: u64,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum IdentityKind {
            Polynomial,
            Plookup,
            Permutation,
            Connect,
        }
        #[derive(Debug, Clone)]
        pub struct SelectedExpressions<E> {
            pub selector: Option<E>,
            pub expressions: Vec<E>,
        }
        #[derive(Debug, Clone)]
        pub struct Identity<S> {
            pub id: u64,
            pub kind: IdentityKind,
            pub source: SourceRef,
            pub left: S,
            pub right: S,
        }
        #[derive(Debug, Clone)]
        pub struct AlgebraicReference {
            pub name: String,
            pub poly_id: PolyID,
            pub next: bool,
        }
        #[derive(Debug, Clone)]
        pub struct Challenge {
            pub id: u64,
            pub stage: u32,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum AlgebraicBinaryOperator {
            Add,
            Sub,
            Mul,
            Pow,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum AlgebraicUnaryOperator {
            Minus,
        }
        #[derive(Debug, Clone)]
        pub struct AlgebraicBinaryOperation<T> {
            pub left: Box<AlgebraicExpression<T>>,
            pub op: AlgebraicBinaryOperator,
            pub right: Box<AlgebraicExpression<T>>,
        }
        #[derive(Debug, Clone)]
        pub struct AlgebraicUnaryOperation<T> {
            pub op: AlgebraicUnaryOperator,
            pub expr: Box<AlgebraicExpression<T>>,
        }
        #[derive(Debug, Clone)]
        pub enum AlgebraicExpression<T> {
            Reference(AlgebraicReference),
            PublicReference(String),
            Challenge(Challenge),
            Number(T),
            BinaryOperation(AlgebraicBinaryOperation<T>),
            UnaryOperation(AlgebraicUnaryOperation<T>),
        }
        #[derive(Debug, Clone)]
        pub enum StatementIdentifier {
            Definition(String),
            PublicDeclaration(String),
            Identity(usize),
        }
        #[derive(Debug)]
        pub struct Analyzed<T> {
            pub degree: u64,
            pub definitions: HashMap<String, (Symbol, Option<()>)>,
            pub public_declarations: HashMap<String, PublicDeclaration>,
            pub intermediate_columns: HashMap<String, (Symbol, Vec<AlgebraicExpression<T>>)>,
            pub identities: Vec<Identity<SelectedExpressions<AlgebraicExpression<T>>>>,
            pub source_order: Vec<StatementIdentifier>,
        }
        impl<T> Analyzed<T> {
            pub fn degree(&self) -> u64 {
                self.degree
            }
            fn count(&self, t: PolynomialType) -> usize {
                self.definitions.values().filter(|d| d.0.kind == SymbolKind::Poly(t)).map(|d| d.0.length.unwrap_or(1) as usize).sum()
            }
            pub fn commitment_count(&self) -> usize {
                self.count(PolynomialType::Committed)
            }
            pub fn constant_count(&self) -> usize {
                self.count(PolynomialType::Constant)
            }
            pub fn intermediate_count(&self) -> usize {
                self.intermediate_columns.values().map(|d| d.0.length.unwrap_or(1) as usize).sum()
            }
        }
    }
}

pub mod pil_analyzer {
    use crate::ast::analyzed::*;
    use crate::number::FieldElement;
    use powdr_parser_util::SourceRef;
    use std::collections::HashMap;
    use std::path::Path;
    use std::sync::Arc;

    pub fn analyze_file<T: FieldElement>(path: &Path) -> Analyzed<T> {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        analyze(&text, Some(path.to_string_lossy().into_owned()))
    }
    pub fn analyze_string<T: FieldElement>(text: &str) -> Analyzed<T> {
        analyze(text, None)
    }

    /// two components are joined by a dot, more by `::`
    fn dotted(ns: &str, x: &str) -> String {
        if ns.contains("::") { format!("{ns}::{x}") } else { format!("{ns}.{x}") }
    }
    #[derive(Debug, Clone, PartialEq)]
    enum Tok {
        Id(String),
        Num(String, bool),
        Op(&'static str),
        End,
    }
    const OPS: [&str; 22] = [
        "**", "::", "(", ")", "[", "]", "{", "}", "+", "-", "*", "=", ",", ";", ":", "'", ".", "%", "<", ">", "/", "$",
    ];
    fn tokens(s: &str) -> Vec<(Tok, usize)> {
        let b = s.as_bytes();
        let mut i = 0;
        let mut r = vec![];
        while i < b.len() {
            let c = b[i];
            if c.is_ascii_whitespace() {
                i += 1;
            } else if s[i..].starts_with("//") {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            } else if s[i..].starts_with("/*") {
                i += s[i..].find("*/").expect("open comment") + 2;
            } else if c.is_ascii_digit() {
                let from = i;
                let hex = s[i..].starts_with("0x");
                if hex {
                    i += 2;
                }
                while i < b.len() && (b[i].is_ascii_digit() || hex && b[i].is_ascii_hexdigit()) {
                    i += 1;
                }
                r.push((Tok::Num(s[from + 2 * hex as usize..i].into(), hex), from));
            } else if c.is_ascii_alphabetic() || c == b'_' {
                let from = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                r.push((Tok::Id(s[from..i].into()), from));
            } else {
                let o = OPS.iter().find(|o| s[i..].starts_with(**o)).unwrap_or_else(|| panic!("character {:?}", c as char));
                r.push((Tok::Op(o), i));
                i += o.len();
            }
        }
        r.push((Tok::End, b.len()));
        r
    }

    /// an expression whose names are not resolved yet
    #[derive(Debug, Clone)]
    enum Raw {
        Num(String, bool),
        Name(String, Option<u64>, bool),
        Public(String),
        Bin(Box<Raw>, AlgebraicBinaryOperator, Box<Raw>),
        Neg(Box<Raw>),
    }
    enum Stmt {
        Pols(String, PolynomialType, Vec<(String, Option<u64>)>),
        Inter(String, String, Option<u64>, Vec<Raw>),
        Public(String, String, String, Option<u64>, u64),
        Id(String, IdentityKind, usize, (Option<Raw>, Vec<Raw>), (Option<Raw>, Vec<Raw>)),
    }
    struct Parser {
        t: Vec<(Tok, usize)>,
        i: usize,
        ns: String,
        vars: HashMap<String, u64>,
        degree: u64,
        out: Vec<Stmt>,
    }
    impl Parser {
        fn peek(&self) -> &Tok {
            &self.t[self.i].0
        }
        fn op(&mut self, o: &str) -> bool {
            let r = matches!(self.peek(), Tok::Op(x) if *x == o);
            self.i += r as usize;
            r
        }
        fn word(&mut self, w: &str) -> bool {
            let r = matches!(self.peek(), Tok::Id(x) if x == w);
            self.i += r as usize;
            r
        }
        fn need(&mut self, o: &str) {
            assert!(self.op(o), "expected {o}, found {:?} at {}", self.t[self.i].0, self.t[self.i].1);
        }
        fn id(&mut self) -> String {
            let Tok::Id(x) = self.peek().clone() else { panic!("expected a name, found {:?}", self.peek()) };
            self.i += 1;
            x
        }
        fn int(&mut self) -> u64 {
            let mut a = self.int_atom();
            loop {
                if self.op("**") {
                    a = a.pow(self.int_atom() as u32);
                } else if self.op("+") {
                    a += self.int_atom();
                } else if self.op("-") {
                    a -= self.int_atom();
                } else if self.op("*") {
                    a *= self.int_atom();
                } else {
                    return a;
                }
            }
        }
        fn int_atom(&mut self) -> u64 {
            self.op("%");
            match self.peek().clone() {
                Tok::Num(n, hex) => {
                    self.i += 1;
                    u64::from_str_radix(&n, if hex { 16 } else { 10 }).unwrap()
                }
                Tok::Id(x) => {
                    self.i += 1;
                    self.vars[&x]
                }
                _ => panic!("expected an integer"),
            }
        }
        fn index(&mut self) -> Option<u64> {
            self.op("[").then(|| {
                let n = self.int();
                self.need("]");
                n
            })
        }
        fn expr(&mut self) -> Raw {
            let mut a = self.term();
            loop {
                let o = if self.op("+") { AlgebraicBinaryOperator::Add } else if self.op("-") { AlgebraicBinaryOperator::Sub } else { return a };
                a = Raw::Bin(Box::new(a), o, Box::new(self.term()));
            }
        }
        fn term(&mut self) -> Raw {
            let mut a = self.factor();
            while self.op("*") {
                a = Raw::Bin(Box::new(a), AlgebraicBinaryOperator::Mul, Box::new(self.factor()));
            }
            a
        }
        fn factor(&mut self) -> Raw {
            if self.op("-") {
                return Raw::Neg(Box::new(self.factor()));
            }
            let a = self.atom();
            if self.op("**") {
                return Raw::Bin(Box::new(a), AlgebraicBinaryOperator::Pow, Box::new(self.factor()));
            }
            a
        }
        fn atom(&mut self) -> Raw {
            if self.op("(") {
                let a = self.expr();
                self.need(")");
                return a;
            }
            if self.op(":") {
                return Raw::Public(self.id());
            }
            if self.op("%") {
                let n = self.id();
                return Raw::Num(self.vars[&n].to_string(), false);
            }
            if let Tok::Num(n, hex) = self.peek().clone() {
                self.i += 1;
                return Raw::Num(n, hex);
            }
            let n = self.name();
            let k = self.index();
            let next = self.op("'");
            Raw::Name(n, k, next)
        }
        fn name(&mut self) -> String {
            let mut n = vec![self.id()];
            while self.op(".") || self.op("::") {
                n.push(self.id());
            }
            let x = n.pop().unwrap();
            if n.is_empty() { dotted(&self.ns, &x) } else { dotted(&n.join("::"), &x) }
        }
        fn list(&mut self, close: &str) -> Vec<Raw> {
            let mut r = vec![];
            while !self.op(close) {
                r.push(self.expr());
                if !self.op(",") {
                    self.need(close);
                    break;
                }
            }
            r
        }
        fn side(&mut self) -> (Option<Raw>, Vec<Raw>) {
            if self.op("{") {
                return (None, self.list("}"));
            }
            if self.op("[") {
                return (None, self.list("]"));
            }
            let e = self.expr();
            if self.op("{") { (Some(e), self.list("}")) } else { (None, vec![e]) }
        }
        fn statement(&mut self) {
            let at = self.t[self.i].1;
            if self.word("let") || self.word("constant") {
                self.op("%");
                let n = self.id();
                if self.op(":") {
                    self.id();
                }
                self.need("=");
                let v = self.int();
                self.vars.insert(n, v);
            } else if self.word("namespace") {
                self.ns = self.id();
                while self.op("::") {
                    let x = self.id();
                    self.ns = format!("{}::{x}", self.ns);
                }
                if self.op("(") {
                    let d = self.int();
                    assert!(self.degree == 0 || self.degree == d, "one number of rows");
                    self.degree = d;
                    self.need(")");
                }
            } else if self.word("public") {
                let n = self.id();
                self.need("=");
                let c = self.name();
                let k = self.index();
                self.need("(");
                let row = self.int();
                self.need(")");
                self.out.push(Stmt::Public(self.ns.clone(), n, c, k, row));
            } else if self.word("pol") || self.word("col") {
                let t = if self.word("constant") || self.word("fixed") {
                    Some(PolynomialType::Constant)
                } else if self.word("commit") || self.word("witness") {
                    Some(PolynomialType::Committed)
                } else {
                    None
                };
                if let Some(t) = t {
                    let mut l = vec![];
                    loop {
                        let n = self.id();
                        let k = self.index();
                        l.push((n, k));
                        if !self.op(",") {
                            break;
                        }
                    }
                    self.out.push(Stmt::Pols(self.ns.clone(), t, l));
                } else {
                    let n = self.id();
                    let k = self.index();
                    self.need("=");
                    let v = if k.is_some() {
                        self.need("[");
                        self.list("]")
                    } else {
                        vec![self.expr()]
                    };
                    assert_eq!(v.len() as u64, k.unwrap_or(1));
                    self.out.push(Stmt::Inter(self.ns.clone(), n, k, v));
                }
            } else {
                let l = self.side();
                let (kind, r) = if self.op("=") {
                    (IdentityKind::Polynomial, (None, vec![self.expr()]))
                } else if self.word("in") {
                    (IdentityKind::Plookup, self.side())
                } else if self.word("is") {
                    (IdentityKind::Permutation, self.side())
                } else if self.word("connect") {
                    (IdentityKind::Connect, self.side())
                } else {
                    panic!("statement at {at}: {:?}", self.peek())
                };
                self.out.push(Stmt::Id(self.ns.clone(), kind, at, l, r));
            }
            self.need(";");
        }
    }

    fn analyze<T: FieldElement>(text: &str, file: Option<String>) -> Analyzed<T> {
        let mut p = Parser { t: tokens(text), i: 0, ns: String::new(), vars: HashMap::new(), degree: 0, out: vec![] };
        while *p.peek() != Tok::End {
            p.statement();
        }
        let mut a = Analyzed {
            degree: p.degree,
            definitions: HashMap::new(),
            public_declarations: HashMap::new(),
            intermediate_columns: HashMap::new(),
            identities: vec![],
            source_order: vec![],
        };
        // symbols first: uses may come before definitions
        let mut syms: HashMap<String, (PolynomialType, u64, Option<u64>)> = HashMap::new();
        let mut n = HashMap::new();
        let mut publics = HashMap::new();
        for s in &p.out {
            let l = match s {
                Stmt::Pols(ns, t, l) => l.iter().map(|(x, k)| (dotted(ns, x), *t, *k)).collect(),
                Stmt::Inter(ns, x, k, _) => vec![(dotted(ns, x), PolynomialType::Intermediate, *k)],
                Stmt::Public(_, x, ..) => {
                    publics.insert(x.clone(), publics.len() as u64);
                    vec![]
                }
                _ => vec![],
            };
            for (x, t, k) in l {
                let c = n.entry(t).or_insert(0);
                assert!(syms.insert(x.clone(), (t, *c, k)).is_none(), "{x} defined twice");
                *c += k.unwrap_or(1);
            }
        }
        fn resolve<T: FieldElement>(r: &Raw, syms: &HashMap<String, (PolynomialType, u64, Option<u64>)>, publics: &HashMap<String, u64>) -> AlgebraicExpression<T> {
            match r {
                Raw::Num(s, hex) => AlgebraicExpression::Number(if *hex { T::from_hex(s) } else { T::from_decimal(s) }),
                Raw::Name(x, k, next) => {
                    let (t, id, len) = *syms.get(x).unwrap_or_else(|| panic!("unknown name {x}"));
                    assert_eq!(k.is_some(), len.is_some(), "{x} used as an array or not");
                    assert!(k.unwrap_or(0) < len.unwrap_or(1), "index of {x}");
                    AlgebraicExpression::Reference(AlgebraicReference {
                        name: x.clone(),
                        poly_id: PolyID { id: id + k.unwrap_or(0), ptype: t },
                        next: *next,
                    })
                }
                Raw::Public(x) => {
                    assert!(publics.contains_key(x), "unknown public {x}");
                    AlgebraicExpression::PublicReference(x.clone())
                }
                Raw::Bin(a, o, b) => AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
                    left: Box::new(resolve(a, syms, publics)),
                    op: *o,
                    right: Box::new(resolve(b, syms, publics)),
                }),
                Raw::Neg(a) => AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation {
                    op: AlgebraicUnaryOperator::Minus,
                    expr: Box::new(resolve(a, syms, publics)),
                }),
            }
        }
        let contents: Arc<str> = Arc::from(text);
        let file: Option<Arc<str>> = file.map(|f| Arc::from(f.as_str()));
        for s in &p.out {
            match s {
                Stmt::Pols(ns, t, l) => {
                    for (x, k) in l {
                        let name = dotted(ns, x);
                        let sym = Symbol { id: syms[&name].1, absolute_name: name.clone(), kind: SymbolKind::Poly(*t), length: *k };
                        a.definitions.insert(name.clone(), (sym, None));
                        a.source_order.push(StatementIdentifier::Definition(name));
                    }
                }
                Stmt::Inter(ns, x, k, v) => {
                    let name = dotted(ns, x);
                    let sym = Symbol {
                        id: syms[&name].1,
                        absolute_name: name.clone(),
                        kind: SymbolKind::Poly(PolynomialType::Intermediate),
                        length: *k,
                    };
                    let v = v.iter().map(|e| resolve(e, &syms, &publics)).collect();
                    a.intermediate_columns.insert(name.clone(), (sym, v));
                    a.source_order.push(StatementIdentifier::Definition(name));
                }
                Stmt::Public(_, x, c, k, row) => {
                    let (t, id, _) = syms[c];
                    a.public_declarations.insert(
                        x.clone(),
                        PublicDeclaration {
                            id: publics[x],
                            name: x.clone(),
                            polynomial: PolynomialReference { name: c.clone(), poly_id: Some(PolyID { id, ptype: t }) },
                            array_index: k.map(|k| k as usize),
                            index: *row,
                        },
                    );
                    a.source_order.push(StatementIdentifier::PublicDeclaration(x.clone()));
                }
                Stmt::Id(_, kind, at, l, r) => {
                    let many = |v: &Vec<Raw>| -> Vec<AlgebraicExpression<T>> { v.iter().map(|e| resolve(e, &syms, &publics)).collect() };
                    let sel = |v: &Option<Raw>| v.as_ref().map(|e| resolve(e, &syms, &publics));
                    let (left, right) = if *kind == IdentityKind::Polynomial {
                        let e = match &r.1[0] {
                            Raw::Num(z, _) if z == "0" => l.1[0].clone(),
                            b => Raw::Bin(Box::new(l.1[0].clone()), AlgebraicBinaryOperator::Sub, Box::new(b.clone())),
                        };
                        (
                            SelectedExpressions { selector: Some(resolve(&e, &syms, &publics)), expressions: vec![] },
                            SelectedExpressions { selector: None, expressions: vec![] },
                        )
                    } else {
                        (
                            SelectedExpressions { selector: sel(&l.0), expressions: many(&l.1) },
                            SelectedExpressions { selector: sel(&r.0), expressions: many(&r.1) },
                        )
                    };
                    let source = SourceRef { file_name: file.clone(), file_contents: Some(contents.clone()), start: *at, end: *at };
                    a.source_order.push(StatementIdentifier::Identity(a.identities.len()));
                    a.identities.push(Identity { id: a.identities.len() as u64, kind: *kind, source, left, right });
                }
            }
        }
        a
    }
}
