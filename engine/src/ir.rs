//! Textual LLVM IR: index modules, parse function bodies on demand.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    OtherFloat(u32),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u64, Rc<Ty>),
    Meta,
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::OtherFloat(w) => (*w as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::OtherFloat(w) => (*w as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vector(n, t) => {
                let bits = match &**t {
                    Ty::Int(w) => *w as u64 * n,
                    t => t.size() * 8 * n,
                };
                (bits + 7) / 8
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::OtherFloat(w) => *w,
            Ty::Vector(n, t) => t.bits() * *n as u32,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::OtherFloat(_))
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Null,
    Undef,
    Zero,
    F(u64),
    Global(String),
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Cst)>>),
    Gep(Ty, Box<(Ty, Cst)>, Vec<(Ty, Cst)>),
    Cast(Box<(Ty, Cst)>, Ty),
    Bin(String, Box<(Ty, Cst)>, Box<(Ty, Cst)>),
    Local(u32),
}

pub type Opnd = (Ty, Cst);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Cst),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Cst, Cst),
    FNeg(Ty, Cst),
    ICmp(Pred, Ty, Cst, Cst),
    FCmp(String, Ty, Cst, Cst),
    Cast(String, Ty, Cst, Ty),
    Select(Opnd, Opnd, Opnd),
    Phi(Ty, Vec<(Cst, u32)>),
    Alloca(Ty, Opnd, u64),
    Load(Ty, Cst),
    Store(Opnd, Cst),
    Gep(Ty, Cst, Vec<Opnd>),
    ExtractValue(Opnd, Vec<usize>),
    InsertValue(Opnd, Opnd, Vec<usize>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Opnd, Opnd, Opnd),
    Freeze(Opnd),
    Call(Ty, Callee, Vec<Opnd>),
    AtomicRmw(String, Cst, Opnd),
    CmpXchg(Cst, Opnd, Opnd),
    Fence,
    Br(u32),
    CondBr(Cst, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub ins: Ins,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub module: usize,
    pub nregs: u32,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Vec<Inst>>,
    pub id: usize,
}

pub struct Module {
    pub name: String,
    pub text: String,
    pub types: HashMap<String, Ty>,
    /// symbol -> (is_func, local linkage, byte range, pretty name)
    pub syms: HashMap<String, Sym>,
}

#[derive(Clone)]
pub struct Sym {
    pub is_func: bool,
    pub local: bool,
    pub start: usize,
    pub end: usize,
    pub pretty: String,
    pub external: bool,
    pub weak_ext: bool,
    pub alias: Option<String>,
}

pub fn unquote(s: &str) -> String {
    let s = s.trim();
    if s.starts_with('"') {
        s[1..s.len() - 1].to_string()
    } else {
        s.to_string()
    }
}

pub fn load_module(path: &str) -> Module {
    let bytes = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
    let text = String::from_utf8_lossy(&bytes).into_owned();
    let mut syms = HashMap::new();
    let mut type_lines: Vec<(String, String)> = Vec::new();
    let mut pos = 0usize;
    let mut pretty = String::new();
    let b = text.as_bytes();
    while pos < b.len() {
        let eol = memchr(b'\n', &b[pos..]).map(|x| pos + x).unwrap_or(b.len());
        let line = &text[pos..eol];
        let first = b[pos];
        match first {
            b';' => {
                let c = line[1..].trim();
                if !c.starts_with("Function Attrs") && !c.starts_with("ModuleID") {
                    pretty = c.to_string();
                }
            }
            b'@' => {
                // global
                let (name, rest) = read_sym(&line[1..]);
                let rest = rest.trim_start().trim_start_matches('=').trim_start();
                let local = rest.starts_with("private") || rest.starts_with("internal");
                let weak_ext = rest.starts_with("extern_weak");
                let external = rest.starts_with("external") || weak_ext;
                let alias = if rest.split_whitespace().take(6).any(|w| w == "alias") {
                    // @x = alias ty, ptr @target
                    rest.rfind('@').map(|p| read_sym(&rest[p + 1..]).0)
                } else {
                    None
                };
                syms.insert(
                    name,
                    Sym { is_func: false, local, start: pos, end: eol, pretty: String::new(), external, weak_ext, alias },
                );
            }
            b'%' => {
                if let Some(p) = line.find(" = type ") {
                    type_lines.push((unquote(&line[1..p]), line[p + 8..].to_string()));
                }
            }
            b'd' if line.starts_with("define") => {
                let at = line.find('@').unwrap();
                let (name, _) = read_sym(&line[at + 1..]);
                let local = line[..at].contains(" private ") || line[..at].contains(" internal ");
                // find end: line that is exactly "}"
                let mut p = eol + 1;
                let mut end = b.len();
                while p < b.len() {
                    let e = memchr(b'\n', &b[p..]).map(|x| p + x).unwrap_or(b.len());
                    if b[p] == b'}' && e == p + 1 {
                        end = p;
                        p = e + 1;
                        break;
                    }
                    p = e + 1;
                }
                syms.insert(
                    name,
                    Sym {
                        is_func: true,
                        local,
                        start: pos,
                        end,
                        pretty: std::mem::take(&mut pretty),
                        external: false,
                        weak_ext: false,
                        alias: None,
                    },
                );
                pos = p;
                continue;
            }
            b'd' => {
                if line.starts_with("declare") && line.contains("extern_weak") {
                    if let Some(at) = line.find('@') {
                        let (name, _) = read_sym(&line[at + 1..]);
                        syms.insert(
                            name,
                            Sym {
                                is_func: false,
                                local: false,
                                start: pos,
                                end: eol,
                                pretty: String::new(),
                                external: true,
                                weak_ext: true,
                                alias: None,
                            },
                        );
                    }
                }
                pretty.clear();
            }
            _ => {}
        }
        pos = eol + 1;
    }
    let mut m = Module { name: path.to_string(), text, types: HashMap::new(), syms };
    // named types may refer to each other; iterate
    for _ in 0..4 {
        for (n, t) in &type_lines {
            let mut p = Parser::new(t, &m.types, None);
            let ty = p.ty();
            m.types.insert(n.clone(), ty);
        }
    }
    m
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    b.iter().position(|&x| x == c)
}

fn read_sym(s: &str) -> (String, &str) {
    let b = s.as_bytes();
    if b[0] == b'"' {
        let e = s[1..].find('"').unwrap() + 1;
        (s[1..e].to_string(), &s[e + 1..])
    } else {
        let mut i = 0;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
            i += 1;
        }
        (s[..i].to_string(), &s[i..])
    }
}

#[derive(Default)]
pub struct Names {
    pub regs: HashMap<String, u32>,
    pub blocks: HashMap<String, u32>,
}
impl Names {
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn block(&mut self, n: String) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(l)
    }
}

pub struct Parser<'a> {
    s: &'a str,
    b: &'a [u8],
    p: usize,
    types: &'a HashMap<String, Ty>,
    names: Option<&'a mut Names>,
}

impl<'a> Parser<'a> {
    pub fn new(s: &'a str, types: &'a HashMap<String, Ty>, names: Option<&'a mut Names>) -> Self {
        Parser { s, b: s.as_bytes(), p: 0, types, names }
    }
    fn ws(&mut self) {
        while self.p < self.b.len() && matches!(self.b[self.p], b' ' | b'\n' | b'\t' | b'\r') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.b.len() {
            self.b[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, &self.s[self.p..(self.p + 80).min(self.s.len())]);
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.b.len() && (self.b[self.p].is_ascii_alphanumeric() || matches!(self.b[self.p], b'_' | b'.')) {
            self.p += 1;
        }
        &self.s[st..self.p]
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let save = self.p;
        let w = self.word();
        self.p = save;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    fn sym(&mut self) -> String {
        let (n, rest) = read_sym(&self.s[self.p..]);
        self.p = self.s.len() - rest.len();
        n
    }
    fn int_lit(&mut self) -> Option<u128> {
        self.ws();
        let st = self.p;
        let neg = self.b[self.p] == b'-';
        let mut q = self.p + neg as usize;
        let ds = q;
        while q < self.b.len() && self.b[q].is_ascii_digit() {
            q += 1;
        }
        if q == ds {
            return None;
        }
        // float literal?
        if q < self.b.len() && (self.b[q] == b'.' || (self.b[q] == b'x' && q == ds + 1)) {
            self.p = st;
            return None;
        }
        let v: u128 = match self.s[ds..q].parse() {
            Ok(v) => v,
            Err(_) => panic!("integer literal too wide"),
        };
        self.p = q;
        Some(if neg { v.wrapping_neg() } else { v })
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.b[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.b[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn ty(&mut self) -> Ty {
        let c = self.peek();
        match c {
            b'{' => {
                self.p += 1;
                let mut f = Vec::new();
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.ty();
                    self.expect(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.int_lit().unwrap() as u64;
                    assert_eq!(self.word(), "x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            b'[' => {
                self.p += 1;
                let n = self.int_lit().unwrap() as u64;
                assert_eq!(self.word(), "x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                self.p += 1;
                let n = self.sym();
                self.types.get(&n).cloned().unwrap_or(Ty::Opaque)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "bfloat" => Ty::OtherFloat(16),
                    "fp128" => Ty::OtherFloat(128),
                    "metadata" | "token" | "label" => Ty::Meta,
                    "opaque" => Ty::Opaque,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type? '{}' at: {}", w, &self.s[self.p..(self.p + 80).min(self.s.len())]),
                }
            }
        }
    }
    /// skip parameter attributes before a value
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attribute "k"="v"
                self.p += 1;
                while self.b[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                if self.eat(b'=') {
                    self.expect(b'"');
                    while self.b[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            match w {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint"
                | "add" | "sub" | "mul" | "xor" | "c" | "bitcast" | "trunc" | "none" | "splat" | "blockaddress" | "addrspacecast"
                | "dso_local_equivalent" | "no_cfi" => return,
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.int_lit();
                    }
                }
                _ => {
                    self.word();
                    if self.p < self.b.len() && self.b[self.p] == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    pub fn value(&mut self, ty: &Ty) -> Cst {
        let c = self.peek();
        match c {
            b'%' => {
                self.p += 1;
                let n = self.sym();
                Cst::Local(self.names.as_mut().expect("local in constant").reg(n))
            }
            b'@' => {
                self.p += 1;
                Cst::Global(self.sym())
            }
            b'{' | b'[' | b'<' => {
                self.p += 1;
                let mut close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' {
                    self.p += 1;
                    close = b'}';
                    packed = true;
                }
                let mut v = Vec::new();
                if !self.eat(close) {
                    loop {
                        let t = self.ty();
                        self.skip_attrs();
                        let x = self.value(&t);
                        v.push((t, x));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(close);
                }
                if packed {
                    self.expect(b'>');
                }
                Cst::Agg(Rc::new(v))
            }
            b'c' if self.b.get(self.p + 1) == Some(&b'"') => {
                self.p += 2;
                let mut out = Vec::new();
                while self.b[self.p] != b'"' {
                    if self.b[self.p] == b'\\' && self.b[self.p + 1] == b'\\' {
                        out.push(b'\\');
                        self.p += 2;
                    } else if self.b[self.p] == b'\\' {
                        let h = &self.s[self.p + 1..self.p + 3];
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        self.p += 3;
                    } else {
                        out.push(self.b[self.p]);
                        self.p += 1;
                    }
                }
                self.p += 1;
                Cst::Bytes(Rc::new(out))
            }
            _ => {
                if c.is_ascii_digit() || c == b'-' || c == b'+' {
                    if let Some(v) = self.int_lit() {
                        if matches!(ty, Ty::F32 | Ty::F64) {
                            return Cst::F(0);
                        }
                        return Cst::Int(v);
                    }
                    // float
                    self.ws();
                    let st = self.p;
                    while self.p < self.b.len() && !matches!(self.b[self.p], b',' | b' ' | b')' | b'\n' | b']' | b'}') {
                        self.p += 1;
                    }
                    let t = &self.s[st..self.p];
                    let f = if let Some(h) = t.strip_prefix("0x") {
                        if let Ok(v) = u64::from_str_radix(h, 16) {
                            f64::from_bits(v)
                        } else {
                            0.0
                        }
                    } else {
                        t.parse::<f64>().unwrap_or(f64::NAN)
                    };
                    return Cst::F(if *ty == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() });
                }
                let w = self.word();
                match w {
                    "null" | "none" => Cst::Null,
                    "true" => Cst::Int(1),
                    "false" => Cst::Int(0),
                    "undef" | "poison" => Cst::Undef,
                    "zeroinitializer" => Cst::Zero,
                    "f0x" => Cst::F(0),
                    "getelementptr" => {
                        loop {
                            let w = self.peek_word();
                            match w {
                                "inbounds" | "nuw" | "nusw" => {
                                    self.word();
                                }
                                "inrange" => {
                                    self.word();
                                    self.skip_parens();
                                }
                                _ => break,
                            }
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let bt = self.ty();
                        let base = self.value(&bt);
                        let mut idx = Vec::new();
                        while self.eat(b',') {
                            let it = self.ty();
                            let iv = self.value(&it);
                            idx.push((it, iv));
                        }
                        self.expect(b')');
                        Cst::Gep(t, Box::new((bt, base)), idx)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.value(&t);
                        assert_eq!(self.word(), "to");
                        let t2 = self.ty();
                        self.expect(b')');
                        Cst::Cast(Box::new((t, v)), t2)
                    }
                    "add" | "sub" | "mul" | "xor" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.value(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let v2 = self.value(&t2);
                        self.expect(b')');
                        Cst::Bin(w.to_string(), Box::new((t, v)), Box::new((t2, v2)))
                    }
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.value(&t);
                        self.expect(b')');
                        let n = ty.nfields();
                        Cst::Agg(Rc::new(vec![(t, v); n]))
                    }
                    _ => panic!("value? '{}' at {}", w, &self.s[self.p..(self.p + 80).min(self.s.len())]),
                }
            }
        }
    }
    fn typed(&mut self) -> Opnd {
        let t = self.ty();
        if t == Ty::Meta {
            // skip metadata operand
            let mut d = 0;
            loop {
                let c = self.peek();
                if c == 0 || (d == 0 && (c == b',' || c == b')')) {
                    break;
                }
                if c == b'(' {
                    d += 1
                }
                if c == b')' {
                    d -= 1
                }
                if c == b'"' {
                    self.p += 1;
                    while self.b[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                self.p += 1;
            }
            return (t, Cst::Undef);
        }
        self.skip_attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert_eq!(self.word(), "label");
        self.expect(b'%');
        let n = self.sym();
        self.names.as_mut().unwrap().block(n)
    }

    fn inst(&mut self) -> Inst {
        let mut dst = None;
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.sym();
            dst = Some(self.names.as_mut().unwrap().reg(n));
            self.expect(b'=');
        }
        let op = self.word();
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub"
            | "fmul" | "fdiv" | "frem" => {
                while matches!(
                    self.peek_word(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                ) {
                    self.word();
                }
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let b = self.value(&t);
                let o = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                Ins::Bin(o, t, a, b)
            }
            "fneg" => {
                while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.word();
                }
                let t = self.ty();
                let a = self.value(&t);
                Ins::FNeg(t, a)
            }
            "icmp" => {
                if self.peek_word() == "samesign" {
                    self.word();
                }
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let b = self.value(&t);
                Ins::ICmp(p, t, a, b)
            }
            "fcmp" => {
                while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.word();
                }
                let p = self.word().to_string();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(b',');
                let b = self.value(&t);
                Ins::FCmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext"
            | "fptrunc" | "ptrtoaddr" => {
                while matches!(
                    self.peek_word(),
                    "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                ) {
                    self.word();
                }
                let t = self.ty();
                let a = self.value(&t);
                assert_eq!(self.word(), "to");
                let t2 = self.ty();
                Ins::Cast(op.to_string(), t, a, t2)
            }
            "select" => {
                while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.word();
                }
                let a = self.typed();
                self.expect(b',');
                let b = self.typed();
                self.expect(b',');
                let c = self.typed();
                Ins::Select(a, b, c)
            }
            "phi" => {
                while matches!(self.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.word();
                }
                let t = self.ty();
                let mut v = Vec::new();
                loop {
                    self.expect(b'[');
                    let x = self.value(&t);
                    self.expect(b',');
                    self.expect(b'%');
                    let n = self.sym();
                    let bl = self.names.as_mut().unwrap().block(n);
                    self.expect(b']');
                    v.push((x, bl));
                    if !self.eat(b',') {
                        break;
                    }
                    if self.peek() != b'[' {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "alloca" => {
                self.eat_word("inalloca");
                let t = self.ty();
                let mut n = (Ty::Int(64), Cst::Int(1));
                let mut al = t.align();
                while self.eat(b',') {
                    if self.eat_word("align") {
                        al = self.int_lit().unwrap() as u64;
                    } else if self.peek() == b'!' {
                        break;
                    } else {
                        n = self.typed();
                    }
                }
                Ins::Alloca(t, n, al)
            }
            "load" => {
                while matches!(self.peek_word(), "atomic" | "volatile") {
                    self.word();
                }
                let t = self.ty();
                self.expect(b',');
                let (_, p) = self.typed();
                Ins::Load(t, p)
            }
            "store" => {
                while matches!(self.peek_word(), "atomic" | "volatile") {
                    self.word();
                }
                let v = self.typed();
                self.expect(b',');
                let (_, p) = self.typed();
                Ins::Store(v, p)
            }
            "getelementptr" => {
                loop {
                    match self.peek_word() {
                        "inbounds" | "nuw" | "nusw" => {
                            self.word();
                        }
                        "inrange" => {
                            self.word();
                            self.skip_parens();
                        }
                        _ => break,
                    }
                }
                let t = self.ty();
                self.expect(b',');
                let (bt, b) = self.typed();
                if bt != Ty::Ptr {
                    return Inst { dst, ins: Ins::Unsupported("vector gep".into()) };
                }
                let mut idx = Vec::new();
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.typed());
                }
                Ins::Gep(t, b, idx)
            }
            "extractvalue" => {
                let a = self.typed();
                let mut idx = Vec::new();
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.int_lit().unwrap() as usize);
                }
                Ins::ExtractValue(a, idx)
            }
            "insertvalue" => {
                let a = self.typed();
                self.expect(b',');
                let b = self.typed();
                let mut idx = Vec::new();
                while self.eat(b',') {
                    if self.peek() == b'!' {
                        break;
                    }
                    idx.push(self.int_lit().unwrap() as usize);
                }
                Ins::InsertValue(a, b, idx)
            }
            "extractelement" => {
                let a = self.typed();
                self.expect(b',');
                let b = self.typed();
                Ins::ExtractElement(a, b)
            }
            "insertelement" => {
                let a = self.typed();
                self.expect(b',');
                let b = self.typed();
                self.expect(b',');
                let c = self.typed();
                Ins::InsertElement(a, b, c)
            }
            "freeze" => Ins::Freeze(self.typed()),
            "atomicrmw" => {
                self.eat_word("volatile");
                let o = self.word().to_string();
                let (_, p) = self.typed();
                self.expect(b',');
                let v = self.typed();
                Ins::AtomicRmw(o, p, v)
            }
            "cmpxchg" => {
                while matches!(self.peek_word(), "weak" | "volatile") {
                    self.word();
                }
                let (_, p) = self.typed();
                self.expect(b',');
                let a = self.typed();
                self.expect(b',');
                let b = self.typed();
                Ins::CmpXchg(p, a, b)
            }
            "fence" => Ins::Fence,
            "br" => {
                if self.peek_word() == "label" {
                    Ins::Br(self.label())
                } else {
                    let t = self.ty();
                    let c = self.value(&t);
                    self.expect(b',');
                    let a = self.label();
                    self.expect(b',');
                    let b = self.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let v = self.typed();
                self.expect(b',');
                let d = self.label();
                self.expect(b'[');
                let mut cs = Vec::new();
                while !self.eat(b']') {
                    let t = self.ty();
                    let k = match self.value(&t) {
                        Cst::Int(k) => k,
                        x => panic!("switch case {:?}", x),
                    };
                    self.expect(b',');
                    let l = self.label();
                    cs.push((k & crate::expr::mask(t.bits()), l));
                }
                Ins::Switch(v, d, cs)
            }
            "ret" => {
                if self.peek_word() == "void" {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.typed()))
                }
            }
            "unreachable" => Ins::Unreachable,
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    assert_eq!(self.word(), "call");
                }
                // flags, cconv, return attributes
                loop {
                    let c = self.peek();
                    if matches!(c, b'{' | b'[' | b'<' | b'%') {
                        break;
                    }
                    let w = self.peek_word();
                    let is_ty = matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "bfloat" | "token")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
                    if is_ty {
                        break;
                    }
                    self.word();
                    if w == "align" {
                        self.int_lit();
                    } else if w == "cc" {
                        self.int_lit();
                    } else if self.p < self.b.len() && self.b[self.p] == b'(' {
                        self.skip_parens();
                    }
                }
                let rt = self.ty();
                if self.peek() == b'(' {
                    // function type
                    self.skip_parens();
                }
                let callee = match self.peek() {
                    b'@' => {
                        self.p += 1;
                        Callee::Direct(self.sym())
                    }
                    b'%' => {
                        let v = self.value(&Ty::Ptr);
                        Callee::Indirect(v)
                    }
                    _ => {
                        let w = self.peek_word();
                        if w == "asm" {
                            let st = self.p;
                            while self.peek() != b'(' {
                                if self.b[self.p] == b'"' {
                                    self.p += 1;
                                    while self.b[self.p] != b'"' {
                                        self.p += 1;
                                    }
                                }
                                self.p += 1;
                            }
                            Callee::Asm(self.s[st..self.p].to_string())
                        } else {
                            let v = self.value(&Ty::Ptr);
                            Callee::Indirect(v)
                        }
                    }
                };
                self.expect(b'(');
                let mut args = Vec::new();
                if !self.eat(b')') {
                    loop {
                        args.push(self.typed());
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b')');
                }
                Ins::Call(rt, callee, args)
            }
            _ => Ins::Unsupported(op.to_string()),
        };
        Inst { dst, ins }
    }
}

/// Initialiser of a global: (type, initial value, constant?)
pub fn parse_global(m: &Module, sym: &Sym) -> (Ty, Cst, bool) {
    let line = &m.text[sym.start..sym.end];
    let (_, rest) = read_sym(&line[1..]);
    let rest = rest.trim_start().trim_start_matches('=').trim_start();
    let mut p = Parser::new(rest, &m.types, None);
    // skip linkage etc. until 'global' or 'constant'
    let is_const;
    loop {
        let w = p.word();
        if w == "global" {
            is_const = false;
            break;
        }
        if w == "constant" {
            is_const = true;
            break;
        }
        if p.p < p.b.len() && p.b[p.p] == b'(' {
            p.skip_parens();
        }
        assert!(!w.is_empty(), "global? {}", rest);
    }
    let t = p.ty();
    if sym.external {
        return (t, Cst::Zero, is_const);
    }
    let v = p.value(&t);
    (t, v, is_const)
}

pub fn parse_func(m: &Module, mi: usize, name: &str, sym: &Sym, id: usize) -> Func {
    let text = &m.text[sym.start..sym.end];
    let mut names = Names::default();
    let eol = text.find('\n').unwrap();
    let head = &text[..eol];
    let at = head.find('@').unwrap();
    // return type: last type before '@' : parse words from the start
    let (_, rest) = read_sym(&head[at + 1..]);
    let ret;
    {
        // strip "define" and linkage words then parse with attribute skipping
        let mut p = Parser::new(&head[6..at], &m.types, None);
        loop {
            let c = p.peek();
            if matches!(c, b'{' | b'[' | b'<' | b'%') {
                break;
            }
            let w = p.peek_word();
            let is_ty = matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "bfloat")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
            if is_ty {
                break;
            }
            p.word();
            if w == "align" || w == "cc" {
                p.int_lit();
            } else if p.p < p.b.len() && p.b[p.p] == b'(' {
                p.skip_parens();
            }
        }
        ret = p.ty();
    }
    let mut params = Vec::new();
    {
        let mut p = Parser::new(rest, &m.types, Some(&mut names));
        p.expect(b'(');
        if !p.eat(b')') {
            loop {
                if p.peek() == b'.' {
                    break;
                }
                let t = p.ty();
                p.skip_attrs();
                let r = if p.peek() == b'%' {
                    p.p += 1;
                    let n = p.sym();
                    p.names.as_mut().unwrap().reg(n)
                } else {
                    let k = format!("__unnamed{}", params.len());
                    p.names.as_mut().unwrap().reg(k)
                };
                params.push((t, r));
                if !p.eat(b',') {
                    break;
                }
            }
        }
    }
    let mut blocks: Vec<(u32, Vec<Inst>)> = Vec::new();
    let body = &text[eol + 1..];
    let mut pos = 0;
    let bb = body.as_bytes();
    while pos < bb.len() {
        let mut e = memchr(b'\n', &bb[pos..]).map(|x| pos + x).unwrap_or(bb.len());
        let line = &body[pos..e];
        if line.is_empty() {
            pos = e + 1;
            continue;
        }
        match bb[pos] {
            b' ' => {
                let t = line.trim_start();
                if t.starts_with(';') || t.starts_with("#dbg") {
                    pos = e + 1;
                    continue;
                }
                if t.starts_with("switch ") {
                    // extend to closing bracket
                    while e < bb.len() && !body[pos..e].lines().last().map_or(false, |l| l.trim_start().starts_with(']')) {
                        e = memchr(b'\n', &bb[e + 1..]).map(|x| e + 1 + x).unwrap_or(bb.len());
                    }
                }
                let mut p = Parser::new(&body[pos..e], &m.types, Some(&mut names));
                let ins = p.inst();
                if blocks.is_empty() {
                    let id = names.block("__entry".into());
                    blocks.push((id, Vec::new()));
                }
                blocks.last_mut().unwrap().1.push(ins);
            }
            b';' => {}
            _ => {
                // label
                let l = if bb[pos] == b'"' {
                    let q = body[pos + 1..].find('"').unwrap();
                    body[pos + 1..pos + 1 + q].to_string()
                } else {
                    body[pos..e].split(':').next().unwrap().to_string()
                };
                let id = names.block(l);
                blocks.push((id, Vec::new()));
            }
        }
        pos = e + 1;
    }
    // block ids are by first mention; map entry first
    let n = names.blocks.len();
    let mut out: Vec<Vec<Inst>> = (0..n).map(|_| Vec::new()).collect();
    let entry = blocks[0].0;
    for (id, v) in blocks {
        out[id as usize] = v;
    }
    // swap so that entry is block 0
    if entry != 0 {
        out.swap(0, entry as usize);
        let f = |b: &mut u32| {
            if *b == 0 {
                *b = entry
            } else if *b == entry {
                *b = 0
            }
        };
        for bl in out.iter_mut() {
            for i in bl.iter_mut() {
                match &mut i.ins {
                    Ins::Br(a) => f(a),
                    Ins::CondBr(_, a, b) => {
                        f(a);
                        f(b)
                    }
                    Ins::Switch(_, d, cs) => {
                        f(d);
                        for c in cs {
                            f(&mut c.1)
                        }
                    }
                    Ins::Phi(_, v) => {
                        for c in v {
                            f(&mut c.1)
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    Func {
        name: name.to_string(),
        pretty: if sym.pretty.is_empty() { name.to_string() } else { sym.pretty.clone() },
        module: mi,
        nregs: names.regs.len() as u32,
        params,
        ret,
        blocks: out,
        id,
    }
}
