//! Symbolic execution of the lowered IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128, u32),
    E(Ex),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn ex(&self) -> Ex {
        match self {
            Val::C(v, w) => c(*v, *w),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn of(e: Ex) -> Val {
        let n = node(e);
        if n.op == Op::Const {
            Val::C(n.k, n.w)
        } else {
            Val::E(e)
        }
    }
    fn w(&self) -> u32 {
        match self {
            Val::C(_, w) => *w,
            Val::E(e) => width(*e),
            Val::A(_) => panic!("width of aggregate"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum R {
    Reg(u32),
    K(Val),
}

pub enum LOp {
    Bin(Bin, R, R),
    FBin(Bin, u32, R, R),
    FNeg(u32, R),
    ICmp(Pred, R, R),
    FCmp(String, u32, R, R),
    Trunc(R, u32),
    Zext(R, u32),
    Sext(R, u32),
    FCast(String, u32, R, u32),
    Copy(R),
    Select(R, R, R),
    Alloca(u64, R),
    Load(Ty, R),
    Store(Ty, R, R),
    Gep(R, u64, Vec<(R, u64)>),
    Extract(R, Vec<usize>),
    Insert(R, R, Vec<usize>),
    ExtractEl(R, R),
    InsertEl(R, R, R),
    CallFn(usize, Vec<R>),
    CallB(Rc<str>, Vec<R>, Ty, Vec<Ty>),
    CallInd(R, Vec<R>),
    Rmw(String, Ty, R, R),
    CmpXchg(Ty, R, R, R),
    Nop,
    Br(u32),
    CondBr(R, u32, u32),
    Switch(R, u32, Vec<(u128, u32)>),
    Ret(Option<R>),
    Unreachable,
    Unsupported(String),
}

pub struct LInst {
    dst: u32,
    op: LOp,
}
pub struct LBlock {
    phis: Vec<(u32, Vec<(u32, R)>)>,
    ins: Vec<LInst>,
}
pub struct LFunc {
    pub name: String,
    pub pretty: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<LBlock>,
    pub is_panic: bool,
    /// text of an error message that nothing looks at
    pub is_text: bool,
    /// decimal text of an integer of so many bytes (0: no such function); what is written for one that is not concrete is left out
    pub num_text: u64,
    pub in_target: bool,
    pub ninst: usize,
}

const NODST: u32 = u32::MAX;

#[derive(Clone)]
pub struct Frame {
    f: Rc<LFunc>,
    fid: usize,
    regs: Vec<Val>,
    bb: u32,
    ip: usize,
    dst: u32,
    stack_mark: usize,
}

#[derive(Clone)]
pub struct HashApp {
    kind: u64,
    input: Rc<Vec<Ex>>,
    out: [Ex; 8],
}

#[derive(Clone)]
pub struct InputRec {
    pub name: String,
    pub parts: Vec<(Ex, u32)>, // (expr, bytes), little endian
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Region,
    stack: Region,
    sp: usize,
    next_heap: usize,
    globals: HashMap<usize, Rc<Obj>>,
    pub pc: Vec<Ex>,
    known: HashMap<Ex, u128>,
    model: Rc<Model>,
    pub inputs: Vec<InputRec>,
    hashes: Vec<HashApp>,
    panic_mode: u64,
    /// fork over the values of symbolic offsets into memory instead of reading all candidates
    fork_offsets: bool,
    /// write symbolic numbers in decimal (it is left out otherwise, for the sake of error messages)
    number_text: bool,
    /// variables whose value the path condition determines, and one that has to be tried
    pinned: Vec<u32>,
    may_pin: Option<u32>,
    instrs: u64,
    trace: Vec<Tr>,
    depth: u32,
    pending_hash: Option<(u64, Rc<Vec<Ex>>)>,
    /// what CLOCK_REALTIME reads (seconds), if the harness set it
    clock: Option<Ex>,
    /// calls for entropy so far
    rng: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub fields: Vec<(String, String)>,
    pub hashes: Vec<(u64, String, String)>,
    pub backtrace: Vec<String>,
}

pub struct Config {
    pub tier: u64,
    pub max_seconds: f64,
    pub max_instr_path: u64,
    pub concrete: Option<Vec<u8>>,
    pub max_violations: usize,
    pub ideal_hash: bool,
}

enum Out {
    Next,
    Jump,
    Retry,
    End,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub ended_ok: u64,
    pub ended_panic_ok: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub covers: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
    pub violations: Vec<Violation>,
    pub funcs: BTreeSet<String>,
    pub trace: Vec<String>,
    pub max_path_instrs: u64,
    pub hash_apps: u64,
    pub completed: u64,
    pub samples: Vec<Sample>,
}

/// One finished path as a concrete run.
pub struct Sample {
    pub input: Vec<u8>,
    pub hashes: Vec<(u64, String, String)>,
    pub trace: Vec<String>,
}

#[derive(Clone)]
enum Tr {
    S(String),
    V(Ex),
}

#[derive(Clone)]
enum Target {
    Func(usize),
    Builtin(Rc<str>),
}

pub struct Engine {
    pub mods: Vec<Module>,
    gsyms: HashMap<String, usize>, // global symbol -> module
    weak: HashMap<String, usize>,
    ftab: HashMap<(usize, String), usize>,
    fsyms: Vec<(usize, String)>,
    funcs: Vec<Option<Rc<LFunc>>>,
    gtab: HashMap<(usize, String), usize>,
    gobjs: Vec<Rc<Obj>>,
    pub solver: Solver,
    pub cfg: Config,
    pub rep: Report,
    work: Vec<State>,
    errno: usize,
    start: Instant,
    rng: u64,
    pub target_mod: String,
    concrete_pos: usize,
    first_violation: Option<std::time::Instant>,
    vio_keys: HashMap<String, usize>,
}

fn addr(region: u64, id: usize) -> u64 {
    (region << REGION_SHIFT) | ((id as u64) << SLOT)
}

const DROP: &[&str] = &[
    "llvm.lifetime.start",
    "llvm.lifetime.end",
    "llvm.assume",
    "llvm.experimental.noalias.scope.decl",
    "llvm.dbg.",
    "llvm.invariant.",
    "llvm.prefetch",
    "llvm.donothing",
    "llvm.sideeffect",
    "llvm.var.annotation",
];

fn is_panic_name(p: &str) -> bool {
    const PRE: &[&str] = &[
        "core::panicking::",
        "core::option::unwrap_failed",
        "core::option::expect_failed",
        "core::result::unwrap_failed",
        "core::slice::index::slice_",
        "core::slice::copy_from_slice_impl::len_mismatch_fail",
        "core::str::slice_error_fail",
        "core::cell::panic_",
        "alloc::raw_vec::handle_error",
        "alloc::raw_vec::capacity_overflow",
        "alloc::alloc::handle_alloc_error",
        "std::panicking::",
        "std::rt::begin_panic",
        "std::process::abort",
        "core::intrinsics::abort",
        "std::thread::local::panic_access_error",
    ];
    // not everything below std::panicking diverges
    if p.starts_with("std::panicking::panic_count") || p.starts_with("std::panicking::catch_unwind") || p.starts_with("std::panicking::panicking") {
        return false;
    }
    let p = p.trim_start_matches('<');
    PRE.iter().any(|x| p.starts_with(x))
}

fn is_alloc_sym(n: &str) -> Option<&'static str> {
    // v0-mangled names of the allocator shim symbols
    for (suf, b) in [
        ("___rust_alloc", "rt.alloc"),
        ("___rust_dealloc", "rt.dealloc"),
        ("___rust_realloc", "rt.realloc"),
        ("___rust_alloc_zeroed", "rt.alloc_zeroed"),
        ("___rust_no_alloc_shim_is_unstable_v2", "rt.nop"),
        ("35___rust_no_alloc_shim_is_unstable_v2", "rt.nop"),
    ] {
        if n.ends_with(suf) && n.contains("___rustc") {
            return Some(b);
        }
        if n == &suf[1..] || n == &suf[2..] {
            return Some(b);
        }
    }
    None
}

impl Engine {
    pub fn new(paths: &[String], cfg: Config, solver: Solver, target_mod: &str) -> Engine {
        let mut mods = Vec::new();
        let mut gsyms: HashMap<String, usize> = HashMap::new();
        let mut weak = HashMap::new();
        for p in paths {
            let m = load_module(p);
            let mi = mods.len();
            for (n, s) in &m.syms {
                if s.weak_ext {
                    weak.insert(n.clone(), mi);
                } else if !s.local && !s.external {
                    gsyms.entry(n.clone()).or_insert(mi);
                }
            }
            mods.push(m);
        }
        let mut e = Engine {
            mods,
            gsyms,
            weak,
            ftab: HashMap::new(),
            fsyms: Vec::new(),
            funcs: Vec::new(),
            gtab: HashMap::new(),
            gobjs: Vec::new(),
            solver,
            cfg,
            rep: Report::default(),
            work: Vec::new(),
            errno: 0,
            start: Instant::now(),
            rng: 0x9e3779b97f4a7c15,
            target_mod: target_mod.to_string(),
            concrete_pos: 0,
            first_violation: None,
            vio_keys: HashMap::new(),
        };
        e.gobjs.push(Rc::new(Obj::new(8)));
        let mut er = Obj::new(8);
        er.data[0] = 2; // ENOENT
        e.gobjs.push(Rc::new(er));
        e.errno = 1;
        e
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------- symbols ----------
    fn find_sym(&self, mi: usize, name: &str) -> Option<(usize, String)> {
        let mut mi = mi;
        let mut name = name.to_string();
        for _ in 0..8 {
            let here = self.mods[mi].syms.get(&name).filter(|s| !s.external);
            let (m2, s) = match here {
                Some(s) => (mi, s),
                None => {
                    let g = *self.gsyms.get(&name)?;
                    (g, &self.mods[g].syms[&name])
                }
            };
            if let Some(a) = &s.alias {
                mi = m2;
                name = a.clone();
                continue;
            }
            return Some((m2, name));
        }
        None
    }

    fn fn_id(&mut self, m: usize, name: String) -> usize {
        if let Some(&i) = self.ftab.get(&(m, name.clone())) {
            return i;
        }
        let i = self.fsyms.len();
        self.fsyms.push((m, name.clone()));
        self.funcs.push(None);
        self.ftab.insert((m, name), i);
        i
    }

    fn call_target(&mut self, mi: usize, name: &str) -> Target {
        if let Some(b) = is_alloc_sym(name) {
            return Target::Builtin(b.into());
        }
        if name.starts_with("llvm.") || name.starts_with("vx_") || matches!(name, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen" | "malloc" | "free") {
            return Target::Builtin(name.into());
        }
        match self.find_sym(mi, name) {
            Some((m, n)) if self.mods[m].syms[&n].is_func => Target::Func(self.fn_id(m, n)),
            _ => Target::Builtin(name.into()),
        }
    }

    /// address of a symbol used as a value
    fn sym_addr(&mut self, mi: usize, name: &str) -> u64 {
        if let Some((m, n)) = self.find_sym(mi, name) {
            if self.mods[m].syms[&n].is_func {
                let id = self.fn_id(m, n);
                return FN_BASE + (id as u64) * 16;
            }
            return addr(GLOBAL, self.global_obj(m, n));
        }
        if self.weak.contains_key(name) {
            return 0;
        }
        // external data declared in this module?
        if let Some(s) = self.mods[mi].syms.get(name) {
            if !s.is_func && s.external {
                if s.weak_ext {
                    return 0;
                }
                return addr(GLOBAL, self.global_obj(mi, name.to_string()));
            }
        }
        // external function taken by address
        let id = self.fn_id(usize::MAX, name.to_string());
        FN_BASE + (id as u64) * 16
    }

    fn global_obj(&mut self, m: usize, n: String) -> usize {
        if let Some(&g) = self.gtab.get(&(m, n.clone())) {
            return g;
        }
        let sym = self.mods[m].syms[&n].clone();
        let (ty, init, _is_const) = parse_global(&self.mods[m], &sym);
        let id = self.gobjs.len();
        self.gobjs.push(Rc::new(Obj::new(ty.size())));
        self.gtab.insert((m, n), id);
        let mut o = Obj::new(ty.size());
        self.init_bytes(m, &mut o, 0, &ty, &init);
        self.gobjs[id] = Rc::new(o);
        id
    }

    fn init_bytes(&mut self, m: usize, o: &mut Obj, off: u64, ty: &Ty, v: &Cst) {
        match v {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => o.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            Cst::Agg(f) => {
                for (i, (t, x)) in f.iter().enumerate() {
                    let fo = off + ty.field_off(i);
                    self.init_bytes(m, o, fo, t, x);
                }
            }
            _ => {
                let k = self.const_scalar(m, ty, v);
                o.write_const(off, ty.store_size(), k);
            }
        }
    }

    fn const_scalar(&mut self, m: usize, ty: &Ty, v: &Cst) -> u128 {
        match v {
            Cst::Int(k) => *k & mask(ty.bits()),
            Cst::Null | Cst::Undef | Cst::Zero => 0,
            Cst::F(b) => *b as u128,
            Cst::Global(n) => self.sym_addr(m, n) as u128,
            Cst::Gep(t, base, idx) => {
                let b = self.const_scalar(m, &base.0, &base.1) as u64;
                let mut off = 0u64;
                let mut cur = t.clone();
                for (i, (it, iv)) in idx.iter().enumerate() {
                    let k = sx(self.const_scalar(m, it, iv), it.bits()) as i64;
                    if i == 0 {
                        off = off.wrapping_add((k as u64).wrapping_mul(t.size()));
                    } else {
                        off = off.wrapping_add(cur.field_off(k as usize));
                        cur = cur.field(k as usize);
                    }
                }
                b.wrapping_add(off) as u128
            }
            Cst::Cast(x, t2) => self.const_scalar(m, &x.0, &x.1) & mask(t2.bits()),
            Cst::Bin(op, a, b) => {
                let x = self.const_scalar(m, &a.0, &a.1);
                let y = self.const_scalar(m, &b.0, &b.1);
                let r = match op.as_str() {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    _ => x ^ y,
                };
                r & mask(a.0.bits())
            }
            x => panic!("const_scalar {:?}", x),
        }
    }

    fn const_val(&mut self, m: usize, ty: &Ty, v: &Cst) -> Val {
        if ty.is_scalar() {
            let w = ty.bits();
            if w > 128 {
                return Val::E(zero(w));
            }
            return Val::C(self.const_scalar(m, ty, v), w);
        }
        match v {
            Cst::Agg(f) => {
                let mut out = Vec::new();
                for (t, x) in f.iter() {
                    out.push(self.const_val(m, t, x));
                }
                Val::A(Rc::new(out))
            }
            Cst::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128, 8)).collect())),
            _ => self.zero_val(ty),
        }
    }
    fn zero_val(&self, ty: &Ty) -> Val {
        if ty.is_scalar() {
            if ty.bits() > 128 {
                return Val::E(zero(ty.bits()));
            }
            Val::C(0, ty.bits())
        } else {
            let n = ty.nfields();
            Val::A(Rc::new((0..n).map(|i| self.zero_val(&ty.field(i))).collect()))
        }
    }

    // ---------- lowering ----------
    fn lower(&mut self, fid: usize) -> Rc<LFunc> {
        if let Some(f) = &self.funcs[fid] {
            return f.clone();
        }
        let (m, name) = self.fsyms[fid].clone();
        if m == usize::MAX {
            panic!("lower of external {}", name);
        }
        let sym = self.mods[m].syms[&name].clone();
        let f = parse_func(&self.mods[m], m, &name, &sym, fid);
        let mut blocks = Vec::new();
        let mut ninst = 0;
        for b in &f.blocks {
            let mut phis = Vec::new();
            let mut ins = Vec::new();
            for i in b {
                ninst += 1;
                let dst = i.dst.unwrap_or(NODST);
                if let Ins::Phi(t, v) = &i.ins {
                    let mut w = Vec::new();
                    for (x, bl) in v {
                        w.push((*bl, self.r(m, t, x)));
                    }
                    phis.push((dst, w));
                    continue;
                }
                let op = self.lower_ins(m, &i.ins);
                if let LOp::Nop = op {
                    continue;
                }
                ins.push(LInst { dst, op });
            }
            blocks.push(LBlock { phis, ins });
        }
        let base = self.mods[m].name.rsplit('/').next().unwrap_or("").to_string();
        let in_target = f.pretty.contains(&format!("{}::", self.target_mod)) || base.starts_with(&format!("{}-", self.target_mod));
        let lf = Rc::new(LFunc {
            num_text: match f.name.strip_suffix("NtB9_7Display3fmt").or(f.name.strip_suffix("NtB8_7Display3fmt")).or(f.name.strip_suffix("NtB6_7Display3fmt")) {
                Some(n) if f.name.starts_with("_RNvX") && n.contains("4core3fmt3num3imp") => match n.as_bytes()[n.len() - 1] {
                    b'h' | b'a' => 1,
                    b't' | b's' => 2,
                    b'm' | b'l' => 4,
                    b'y' | b'x' | b'j' | b'i' => 8,
                    _ => 0,
                },
                _ => 0,
            },
            is_text: f.name.contains("serde2de") && f.name.contains("10Unexpected") && f.name.ends_with("7Display3fmt"),
            name: f.name,
            is_panic: is_panic_name(&f.pretty),
            in_target: in_target && f.pretty.contains(&format!("{}::", self.target_mod)),
            pretty: f.pretty,
            nregs: f.nregs,
            params: f.params.iter().map(|p| p.1).collect(),
            blocks,
            ninst,
        });
        self.funcs[fid] = Some(lf.clone());
        lf
    }
    fn r(&mut self, m: usize, t: &Ty, v: &Cst) -> R {
        match v {
            Cst::Local(i) => R::Reg(*i),
            _ => R::K(self.const_val(m, t, v)),
        }
    }
    fn lower_ins(&mut self, m: usize, i: &Ins) -> LOp {
        match i {
            Ins::Bin(b, t, x, y) => {
                if !t.is_scalar() {
                    return LOp::Unsupported("vector arithmetic".into());
                }
                let (x, y) = (self.r(m, t, x), self.r(m, t, y));
                match b {
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => LOp::FBin(*b, t.bits(), x, y),
                    _ => LOp::Bin(*b, x, y),
                }
            }
            Ins::FNeg(t, x) => LOp::FNeg(t.bits(), self.r(m, t, x)),
            Ins::ICmp(p, t, x, y) => {
                if !t.is_scalar() {
                    return LOp::Unsupported("vector icmp".into());
                }
                LOp::ICmp(*p, self.r(m, t, x), self.r(m, t, y))
            }
            Ins::FCmp(p, t, x, y) => LOp::FCmp(p.clone(), t.bits(), self.r(m, t, x), self.r(m, t, y)),
            Ins::Cast(k, t, x, t2) => {
                if !t.is_scalar() || !t2.is_scalar() {
                    return LOp::Unsupported(format!("{} on vectors", k));
                }
                let x = self.r(m, t, x);
                let (a, b) = (t.bits(), t2.bits());
                match k.as_str() {
                    "trunc" => LOp::Trunc(x, b),
                    "zext" => LOp::Zext(x, b),
                    "sext" => LOp::Sext(x, b),
                    "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                        if a > b {
                            LOp::Trunc(x, b)
                        } else if a < b {
                            LOp::Zext(x, b)
                        } else {
                            LOp::Copy(x)
                        }
                    }
                    _ => LOp::FCast(k.clone(), a, x, b),
                }
            }
            Ins::Select(a, b, c) => LOp::Select(self.r(m, &a.0, &a.1), self.r(m, &b.0, &b.1), self.r(m, &c.0, &c.1)),
            Ins::Phi(..) => unreachable!(),
            Ins::Alloca(t, n, _) => LOp::Alloca(t.size(), self.r(m, &n.0, &n.1)),
            Ins::Load(t, p) => LOp::Load(t.clone(), self.r(m, &Ty::Ptr, p)),
            Ins::Store(v, p) => LOp::Store(v.0.clone(), self.r(m, &v.0, &v.1), self.r(m, &Ty::Ptr, p)),
            Ins::Gep(t, b, idx) => {
                let base = self.r(m, &Ty::Ptr, b);
                let mut off = 0u64;
                let mut dynv = Vec::new();
                let mut cur = t.clone();
                for (i, (it, iv)) in idx.iter().enumerate() {
                    if i == 0 {
                        match self.r(m, it, iv) {
                            R::K(Val::C(k, w)) => off = off.wrapping_add((sx(k, w) as u64).wrapping_mul(t.size())),
                            x => dynv.push((x, t.size())),
                        }
                    } else {
                        match (&cur, self.r(m, it, iv)) {
                            (Ty::Struct(..), R::K(Val::C(k, _))) => {
                                off = off.wrapping_add(cur.field_off(k as usize));
                                cur = cur.field(k as usize);
                            }
                            (_, R::K(Val::C(k, w))) => {
                                let el = cur.field(0);
                                off = off.wrapping_add((sx(k, w) as u64).wrapping_mul(el.size()));
                                cur = el;
                            }
                            (_, x) => {
                                let el = cur.field(0);
                                dynv.push((x, el.size()));
                                cur = el;
                            }
                        }
                    }
                }
                LOp::Gep(base, off, dynv)
            }
            Ins::ExtractValue(a, idx) => LOp::Extract(self.r(m, &a.0, &a.1), idx.clone()),
            Ins::InsertValue(a, b, idx) => LOp::Insert(self.r(m, &a.0, &a.1), self.r(m, &b.0, &b.1), idx.clone()),
            Ins::ExtractElement(a, b) => LOp::ExtractEl(self.r(m, &a.0, &a.1), self.r(m, &b.0, &b.1)),
            Ins::InsertElement(a, b, c) => LOp::InsertEl(self.r(m, &a.0, &a.1), self.r(m, &b.0, &b.1), self.r(m, &c.0, &c.1)),
            Ins::Freeze(a) => LOp::Copy(self.r(m, &a.0, &a.1)),
            Ins::Call(rt, cal, args) => {
                let mut av = Vec::new();
                let mut tys = Vec::new();
                match cal {
                    Callee::Direct(n) => {
                        if DROP.iter().any(|d| n.starts_with(d)) {
                            return LOp::Nop;
                        }
                        for (t, v) in args {
                            if *t == Ty::Meta {
                                continue;
                            }
                            av.push(self.r(m, t, v));
                            tys.push(t.clone());
                        }
                        match self.call_target(m, n) {
                            Target::Func(f) => LOp::CallFn(f, av),
                            Target::Builtin(b) => LOp::CallB(b, av, rt.clone(), tys),
                        }
                    }
                    Callee::Indirect(p) => {
                        for (t, v) in args {
                            av.push(self.r(m, t, v));
                        }
                        LOp::CallInd(self.r(m, &Ty::Ptr, p), av)
                    }
                    Callee::Asm(s) => {
                        if s.contains("\"\", ") || s.contains("\"\",") {
                            // empty asm: black_box / compiler barrier
                            if *rt == Ty::Void {
                                LOp::Nop
                            } else if args.len() == 1 {
                                LOp::Copy(self.r(m, &args[0].0, &args[0].1))
                            } else {
                                LOp::Unsupported(format!("asm {}", s))
                            }
                        } else {
                            LOp::Unsupported(format!("asm {}", s))
                        }
                    }
                }
            }
            Ins::AtomicRmw(o, p, v) => LOp::Rmw(o.clone(), v.0.clone(), self.r(m, &Ty::Ptr, p), self.r(m, &v.0, &v.1)),
            Ins::CmpXchg(p, a, b) => LOp::CmpXchg(a.0.clone(), self.r(m, &Ty::Ptr, p), self.r(m, &a.0, &a.1), self.r(m, &b.0, &b.1)),
            Ins::Fence => LOp::Nop,
            Ins::Br(l) => LOp::Br(*l),
            Ins::CondBr(c, a, b) => LOp::CondBr(self.r(m, &Ty::Int(1), c), *a, *b),
            Ins::Switch(v, d, cs) => LOp::Switch(self.r(m, &v.0, &v.1), *d, cs.clone()),
            Ins::Ret(v) => LOp::Ret(v.as_ref().map(|v| self.r(m, &v.0, &v.1))),
            Ins::Unreachable => LOp::Unreachable,
            Ins::Unsupported(s) => LOp::Unsupported(s.clone()),
        }
    }

    // ---------- running ----------
    pub fn run(&mut self, entry: &str) {
        self.start = Instant::now();
        let (m, n) = self.find_sym(0, entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let fid = self.fn_id(m, n);
        let f = self.lower(fid);
        let st = State {
            frames: vec![Frame { regs: vec![Val::C(0, 1); f.nregs as usize], f, fid, bb: 0, ip: 0, dst: NODST, stack_mark: 1 }],
            heap: Region::default(),
            stack: Region::default(),
            sp: 1,
            next_heap: 1,
            globals: HashMap::new(),
            pc: Vec::new(),
            known: HashMap::new(),
            model: Rc::new(Model::new()),
            inputs: Vec::new(),
            hashes: Vec::new(),
            panic_mode: 0,
            fork_offsets: false,
            number_text: false,
            pinned: Vec::new(),
            may_pin: None,
            instrs: 0,
            trace: Vec::new(),
            clock: None,
            rng: 0,
            depth: 0,
            pending_hash: None,
        };
        self.work.push(st);
        while let Some(st) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.max_seconds {
                self.rep.inconclusive.push(format!("time limit, {} states left", self.work.len() + 1));
                break;
            }
            if self.rep.violations.len() >= self.cfg.max_violations {
                break;
            }
            // a counterexample settles it; a few more are shown if they come soon
            if self.first_violation.map_or(false, |t| t.elapsed().as_secs_f64() > 20.0) {
                break;
            }
            self.run_state(st);
        }
    }

    fn run_state(&mut self, mut st: State) {
        let mut n = 0u64;
        let (ok0, pan0) = (self.rep.ended_ok, self.rep.ended_panic_ok);
        loop {
            n += 1;
            if n & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.max_seconds {
                self.rep.inconclusive.push(format!("time limit, {} states left", self.work.len() + 1));
                self.work.clear();
                break;
            }
            st.instrs += 1;
            if st.instrs > self.cfg.max_instr_path {
                self.incon(&st, "instruction limit on one path".into());
                break;
            }
            match self.step(&mut st) {
                Out::Next => {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Out::Jump => {}
                Out::Retry => {}
                Out::End => break,
            }
        }
        let completed = self.rep.ended_ok > ok0 || self.rep.ended_panic_ok > pan0;
        self.rep.instrs += n;
        self.rep.paths += 1;
        if std::env::var("IRSX_PROGRESS").is_ok() && self.rep.paths % 100 == 0 {
            eprintln!("paths {} pending {} instrs {} queries {} solver {:.1}s", self.rep.paths, self.work.len(), self.rep.instrs, self.solver.stats.queries, self.solver.stats.time);
        }
        self.rep.max_path_instrs = self.rep.max_path_instrs.max(st.instrs);
        self.rep.hash_apps = self.rep.hash_apps.max(st.hashes.len() as u64);
        if self.cfg.concrete.is_some() {
            self.rep.trace = self.eval_trace(&st, &st.model);
        } else if completed {
            if std::env::var("IRSX_CHECK").is_ok() {
                for e in &st.pc {
                    if !self.holds(&st, *e) {
                        eprintln!("model breaks path condition: {} with {:?} after {:?}", show(*e, 12), st.model, st.trace.len());
                        break;
                    }
                }
            }
            // keep a spread of finished paths, each as a concrete run the real code can be compared on
            self.rep.completed += 1;
            let k = self.rep.completed;
            let slot = if self.rep.samples.len() < 12 { Some(self.rep.samples.len()) } else { let r = self.rand() % k; if r < 12 { Some(r as usize) } else { None } };
            if let Some(i) = slot {
                let smp = Sample { input: self.input_bytes(&st, &st.model), hashes: self.hash_table(&st, &st.model), trace: self.eval_trace(&st, &st.model) };
                if i == self.rep.samples.len() {
                    self.rep.samples.push(smp);
                } else {
                    self.rep.samples[i] = smp;
                }
            }
        }
    }

    fn eval_trace(&self, st: &State, model: &Model) -> Vec<String> {
        let mut ev = Eval::new(model);
        st.trace
            .iter()
            .map(|t| match t {
                Tr::S(s) => s.clone(),
                Tr::V(e) => format!("{}", ev.eval(*e) as u64),
            })
            .collect()
    }

    fn hash_table(&self, st: &State, model: &Model) -> Vec<(u64, String, String)> {
        let mut ev = Eval::new(model);
        let mut hashes = Vec::new();
        for h in &st.hashes {
            let i: String = h.input.iter().map(|b| format!("{:02x}", ev.eval(*b))).collect();
            let mut o = String::new();
            for q in h.out.iter() {
                let v = ev.eval(*q);
                for i in 0..8 {
                    o.push_str(&format!("{:02x}", (v >> (8 * i)) as u8));
                }
            }
            hashes.push((h.kind, i, o));
        }
        hashes
    }

    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| f.f.pretty.clone()).collect()
    }

    fn incon(&mut self, st: &State, why: String) {
        let bt = self.backtrace(st);
        let msg = format!("{} in {}", why, bt.iter().take(8).cloned().collect::<Vec<_>>().join(" < "));
        if self.rep.inconclusive.len() < 20 && !self.rep.inconclusive.contains(&msg) {
            self.rep.inconclusive.push(msg);
        }
    }

    fn val(&self, st: &State, r: &R) -> Val {
        match r {
            R::K(v) => v.clone(),
            R::Reg(i) => {
                let v = &st.frames.last().unwrap().regs[*i as usize];
                if let Val::E(e) = v {
                    if let Some(k) = st.known.get(e) {
                        return Val::C(*k, width(*e));
                    }
                }
                v.clone()
            }
        }
    }

    fn set(&self, st: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }

    /// adds a constraint known to be satisfied by st.model
    fn constrain(&mut self, st: &mut State, e: Ex) {
        if as_const(e).is_some() {
            return;
        }
        if st.known.get(&e) == Some(&1) {
            return;
        }
        let n = node(e);
        if n.op == Op::And {
            self.constrain(st, n.a);
            self.constrain(st, n.b);
            return;
        }
        // not (a or b)
        if n.op == Op::Xor && as_const(n.b) == Some(1) {
            let m = node(n.a);
            if m.op == Op::Or {
                self.constrain(st, not(m.a));
                self.constrain(st, not(m.b));
                return;
            }
        }
        st.known.insert(e, 1);
        st.known.insert(not(e), 0);
        if n.op == Op::Eq {
            if let Some(k) = as_const(n.b) {
                st.known.insert(n.a, k);
            }
        }
        if st.fork_offsets && n.op == Op::Eq {
            let v = vars(e);
            if v.len() == 1 {
                st.may_pin = Some(v[0]);
            }
        }
        st.pc.push(e);
    }

    /// The value of an expression all of whose variables are determined by the path condition.
    fn pinned_value(&mut self, st: &mut State, e: Ex) -> Option<u128> {
        if !st.fork_offsets {
            return None;
        }
        if let Some(v) = st.may_pin.take() {
            if !st.pinned.contains(&v) {
                let x = var_ex(v);
                let k = Eval::new(&st.model).eval(x);
                if let Res::Unsat = self.solver.check(&st.pc, not(eq(x, c(k, width(x))))) {
                    st.pinned.push(v);
                }
            }
        }
        if st.pinned.is_empty() || vars(e).iter().any(|v| !st.pinned.contains(v)) {
            return None;
        }
        Some(Eval::new(&st.model).eval(e))
    }

    fn holds(&self, st: &State, e: Ex) -> bool {
        if let Some(k) = as_const(e) {
            return k == 1;
        }
        Eval::new(&st.model).eval(e) == 1
    }

    fn merged(&self, st: &State, m: &Model) -> Rc<Model> {
        let mut r = (*st.model).clone();
        for (k, v) in m {
            r.insert(*k, *v);
        }
        Rc::new(r)
    }

    /// Can `cond` be false/true? Returns (can_true, can_false) with models for the side the current model does not take.
    /// None = solver gave up.
    fn decide(&mut self, st: &State, cond: Ex) -> Option<(bool, Option<Rc<Model>>)> {
        // (value under current model, model of the other side)
        if let Some(k) = as_const(cond) {
            return Some((k == 1, None));
        }
        if let Some(k) = st.known.get(&cond) {
            return Some((*k == 1, None));
        }
        let v = self.holds(st, cond);
        let other = if v { not(cond) } else { cond };
        match self.solver.check(&st.pc, other) {
            Res::Sat(m) => Some((v, Some(self.merged(st, &m)))),
            Res::Unsat => Some((v, None)),
            Res::Unknown => None,
        }
    }

    /// Fork on a 1-bit condition; the current state keeps the side returned.
    fn branch(&mut self, st: &mut State, cond: Ex) -> Option<bool> {
        if as_const(cond).is_none() {
            if let Some(k) = self.pinned_value(st, cond) {
                return Some(k == 1);
            }
        }
        match self.decide(st, cond) {
            None => {
                self.incon(st, "solver gave up on a branch".into());
                None
            }
            Some((v, other)) => {
                if let Some(m) = other {
                    let mut s2 = st.clone();
                    s2.model = m;
                    s2.depth += 1;
                    let oc = if v { not(cond) } else { cond };
                    self.constrain(&mut s2, oc);
                    self.rep.forks += 1;
                    self.work.push(s2);
                    let sc = if v { cond } else { not(cond) };
                    self.constrain(st, sc);
                } else if as_const(cond).is_none() {
                    // implied; remember
                    let k = v as u128;
                    st.known.insert(cond, k);
                    st.known.insert(not(cond), 1 - k);
                }
                Some(v)
            }
        }
    }

    /// Make a scalar concrete, forking over its feasible values.
    fn concretize(&mut self, st: &mut State, v: &Val) -> Result<u128, Out> {
        match v {
            Val::C(k, _) => Ok(*k),
            Val::A(_) => panic!("concretize aggregate"),
            Val::E(e) => {
                if let Some(k) = st.known.get(e) {
                    return Ok(*k);
                }
                if let Some(k) = self.pinned_value(st, *e) {
                    return Ok(k);
                }
                let k = Eval::new(&st.model).eval(*e);
                let cnd = eq(*e, c(k, width(*e)));
                match self.solver.check(&st.pc, not(cnd)) {
                    Res::Sat(m) => {
                        let mut s2 = st.clone();
                        s2.model = self.merged(st, &m);
                        s2.depth += 1;
                        self.constrain(&mut s2, not(cnd));
                        self.rep.forks += 1;
                        self.work.push(s2);
                        self.constrain(st, cnd);
                    }
                    Res::Unsat => {}
                    Res::Unknown => {
                        self.incon(st, "solver gave up while concretising".into());
                        return Err(Out::End);
                    }
                }
                st.known.insert(*e, k);
                Ok(k)
            }
        }
    }

    fn obj<'a>(&'a self, st: &'a State, a: u64) -> Option<(&'a Rc<Obj>, u64)> {
        let off = a & ((1 << SLOT) - 1);
        let id = ((a >> SLOT) & ((1 << (REGION_SHIFT - SLOT)) - 1)) as usize;
        let o = match a >> REGION_SHIFT {
            HEAP => st.heap.get(id),
            STACK => st.stack.get(id),
            GLOBAL => st.globals.get(&id).or_else(|| self.gobjs.get(id)),
            _ => None,
        }?;
        Some((o, off))
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, a: u64) -> Option<(&'a mut Obj, u64)> {
        let off = a & ((1 << SLOT) - 1);
        let id = ((a >> SLOT) & ((1 << (REGION_SHIFT - SLOT)) - 1)) as usize;
        let o = match a >> REGION_SHIFT {
            HEAP => st.heap.get_mut(id),
            STACK => st.stack.get_mut(id),
            GLOBAL => {
                if !st.globals.contains_key(&id) {
                    let o = self.gobjs.get(id)?.clone();
                    st.globals.insert(id, o);
                }
                st.globals.get_mut(&id).map(Rc::make_mut)
            }
            _ => None,
        }?;
        Some((o, off))
    }

    fn mem_error(&mut self, st: &mut State, what: &str, a: u64, n: u64) -> Out {
        let msg = format!("memory error: {} of {} bytes at {:#x}", what, n, a);
        self.violation(st, "memory-safety", &msg, None);
        Out::End
    }

    fn heap_alloc(&mut self, st: &mut State, size: u64) -> Option<u64> {
        if size >= (1 << SLOT) {
            return None;
        }
        let id = st.next_heap;
        st.next_heap += 1;
        if id >= 1 << (REGION_SHIFT - SLOT) {
            return None;
        }
        st.heap.set(id, Some(Rc::new(Obj::new(size))));
        Some(addr(HEAP, id))
    }

    /// Resolve an address for an access of n bytes: either concrete, or (base, offset expr) inside one object.
    fn resolve(&mut self, st: &mut State, p: &Val, n: u64, what: &str) -> Result<(u64, Option<Ex>), Out> {
        match p {
            Val::C(a, _) => Ok((*a as u64, None)),
            Val::A(_) => panic!(),
            Val::E(e) => {
                let e = *e;
                let en = node(e);
                if en.op == Op::Ite {
                    // pointer choice: fork on the condition
                    let b = match self.branch(st, en.a) {
                        Some(b) => b,
                        None => return Err(Out::End),
                    };
                    let _ = b;
                    let v = if let Some(k) = st.known.get(&en.a) { *k == 1 } else { b };
                    let t = if v { en.b } else { en.c };
                    return self.resolve(st, &Val::of(t), n, what);
                }
                let a = Eval::new(&st.model).eval(e) as u64;
                let (size, base) = match self.obj(st, a) {
                    Some((o, off)) => (o.size, a - off),
                    None => {
                        return Err(self.mem_error(st, what, a, n));
                    }
                };
                if n > size {
                    return Err(self.mem_error(st, what, a, n));
                }
                let off = sub(e, c(base as u128, 64));
                let inb = ule(off, c((size - n) as u128, 64));
                match self.branch(st, inb) {
                    None => return Err(Out::End),
                    Some(true) => {}
                    Some(false) => return Err(self.mem_error(st, what, a, n)),
                }
                if st.fork_offsets && base >> REGION_SHIFT != GLOBAL {
                    let k = self.concretize(st, &Val::E(off))? as u64;
                    return Ok((base + k, None));
                }
                if let Some(k) = as_const(off) {
                    return Ok((base + k as u64, None));
                }
                Ok((base, Some(off)))
            }
        }
    }

    fn load_n(&mut self, st: &mut State, p: &Val, n: u64) -> Result<Val, Out> {
        if n == 0 {
            return Ok(Val::C(0, 8));
        }
        let w = (n * 8) as u32;
        let (a, off) = self.resolve(st, p, n, "load")?;
        match off {
            None => {
                let r = match self.obj(st, a) {
                    Some((o, off)) if off + n <= o.size => {
                        if n > 16 {
                            let mut e = o.byte(off);
                            for i in 1..n {
                                e = concat(o.byte(off + i), e);
                            }
                            Err(e)
                        } else {
                            o.read(off, n)
                        }
                    }
                    _ => return Err(self.mem_error(st, "load", a, n)),
                };
                Ok(match r {
                    Ok(k) => Val::C(k, w),
                    Err(e) => Val::of(e),
                })
            }
            Some(off) => {
                let (o, _) = self.obj(st, a).unwrap();
                let o = o.clone();
                let (stride, rem) = stride_of(off);
                let mut offs = Vec::new();
                let mut x = rem;
                while x + n <= o.size {
                    offs.push(x);
                    x += stride;
                }
                if offs.is_empty() || offs.len() > 4096 {
                    let k = self.concretize(st, &Val::E(off))? as u64;
                    return self.load_n(st, &Val::C((a + k) as u128, 64), n);
                }
                let vals: Vec<Ex> = offs
                    .iter()
                    .map(|&x| match o.read(x, n) {
                        Ok(k) => c(k, w),
                        Err(e) => e,
                    })
                    .collect();
                Ok(Val::of(mux(off, &offs, &vals)))
            }
        }
    }

    fn store_n(&mut self, st: &mut State, p: &Val, n: u64, v: &Val) -> Result<(), Out> {
        if n == 0 {
            return Ok(());
        }
        let (a, off) = self.resolve(st, p, n, "store")?;
        match off {
            None => {
                let ok = match self.obj_mut(st, a) {
                    Some((o, off)) if off + n <= o.size && !o.ro => {
                        match v {
                            Val::C(k, _) => o.write_const(off, n, *k),
                            Val::E(e) => o.write_ex(off, n, *e),
                            Val::A(_) => panic!(),
                        }
                        true
                    }
                    _ => false,
                };
                if !ok {
                    return Err(self.mem_error(st, "store", a, n));
                }
                Ok(())
            }
            Some(off) => {
                let (o, _) = self.obj(st, a).unwrap();
                let size = o.size;
                let (stride, rem) = stride_of(off);
                let cnt = (size.saturating_sub(rem)) / stride;
                if cnt > 300 {
                    let k = self.concretize(st, &Val::E(off))? as u64;
                    return self.store_n(st, &Val::C((a + k) as u128, 64), n, v);
                }
                let ve = v.ex();
                let (o, _) = self.obj_mut(st, a).unwrap();
                let mut x = rem;
                while x + n <= size {
                    let cnd = eq(off, c(x as u128, 64));
                    if as_const(cnd) != Some(0) {
                        for i in 0..n {
                            let old = o.byte(x + i);
                            let nv = ite(cnd, extract(ve, (8 * i) as u32, 8), old);
                            o.set_byte(x + i, nv);
                        }
                    }
                    x += stride;
                }
                Ok(())
            }
        }
    }

    fn ptr_add(&self, p: &Val, k: u64) -> Val {
        match p {
            Val::C(a, w) => Val::C((*a).wrapping_add(k as u128) & mask(*w), *w),
            Val::E(e) => Val::of(add(*e, c(k as u128, 64))),
            _ => panic!(),
        }
    }

    fn load_ty(&mut self, st: &mut State, t: &Ty, p: &Val) -> Result<Val, Out> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = Vec::new();
                for i in 0..t.nfields() {
                    let q = self.ptr_add(p, t.field_off(i));
                    v.push(self.load_ty(st, &t.field(i), &q)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, el) => {
                let sz = el.size();
                let mut v = Vec::new();
                for i in 0..*n {
                    let q = self.ptr_add(p, i * sz);
                    v.push(self.load_ty(st, el, &q)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let bits = t.bits();
                let v = self.load_n(st, p, t.store_size())?;
                if v.w() == bits {
                    Ok(v)
                } else {
                    Ok(match v {
                        Val::C(k, _) => Val::C(k & mask(bits), bits),
                        Val::E(e) => Val::of(extract(e, 0, bits)),
                        _ => unreachable!(),
                    })
                }
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, t: &Ty, p: &Val, v: &Val) -> Result<(), Out> {
        match (t, v) {
            (Ty::Struct(..), Val::A(f)) | (Ty::Arr(..), Val::A(f)) => {
                for (i, x) in f.iter().enumerate() {
                    let q = self.ptr_add(p, t.field_off(i));
                    self.store_ty(st, &t.field(i), &q, x)?;
                }
                Ok(())
            }
            (Ty::Vector(_, el), Val::A(f)) => {
                for (i, x) in f.iter().enumerate() {
                    let q = self.ptr_add(p, i as u64 * el.size());
                    self.store_ty(st, el, &q, x)?;
                }
                Ok(())
            }
            _ => {
                let n = t.store_size();
                let bits = t.bits();
                let v2 = if bits as u64 != n * 8 {
                    match v {
                        Val::C(k, _) => Val::C(*k, (n * 8) as u32),
                        Val::E(e) => Val::of(zext(*e, (n * 8) as u32)),
                        _ => unreachable!(),
                    }
                } else {
                    v.clone()
                };
                self.store_n(st, p, n, &v2)
            }
        }
    }

    fn read_bytes(&mut self, st: &mut State, p: &Val, n: u64) -> Result<Vec<Ex>, Out> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.concretize(st, p)? as u64;
        let r = match self.obj(st, a) {
            Some((o, off)) if off + n <= o.size => (0..n).map(|i| o.byte(off + i)).collect::<Vec<_>>(),
            _ => return Err(self.mem_error(st, "read", a, n)),
        };
        Ok(r)
    }
    fn write_bytes(&mut self, st: &mut State, p: &Val, b: &[Ex]) -> Result<(), Out> {
        if b.is_empty() {
            return Ok(());
        }
        let a = self.concretize(st, p)? as u64;
        let ok = match self.obj_mut(st, a) {
            Some((o, off)) if off + b.len() as u64 <= o.size => {
                for (i, e) in b.iter().enumerate() {
                    o.set_byte(off + i as u64, *e);
                }
                true
            }
            _ => false,
        };
        if !ok {
            return Err(self.mem_error(st, "write", a, b.len() as u64));
        }
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: u64) -> Result<(), Out> {
        if n == 0 {
            return Ok(());
        }
        let sa = self.concretize(st, s)? as u64;
        let da = self.concretize(st, d)? as u64;
        let (data, sym) = match self.obj(st, sa) {
            Some((o, off)) if off + n <= o.size => {
                let data = o.data[off as usize..(off + n) as usize].to_vec();
                let sym: Vec<(u32, Ex)> = if o.sym.is_empty() {
                    vec![]
                } else {
                    o.sym.range(off as u32..(off + n) as u32).map(|(k, v)| (*k - off as u32, *v)).collect()
                };
                (data, sym)
            }
            _ => return Err(self.mem_error(st, "copy from", sa, n)),
        };
        let ok = match self.obj_mut(st, da) {
            Some((o, off)) if off + n <= o.size => {
                o.data[off as usize..(off + n) as usize].copy_from_slice(&data);
                o.clear_sym(off, n);
                for (k, e) in sym {
                    o.sym.insert(off as u32 + k, e);
                }
                true
            }
            _ => false,
        };
        if !ok {
            return Err(self.mem_error(st, "copy to", da, n));
        }
        Ok(())
    }

    fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.obj(st, p) {
            Some((o, off)) if off + n <= o.size => String::from_utf8_lossy(&o.data[off as usize..(off + n) as usize]).into_owned(),
            _ => "?".into(),
        }
    }

    fn location(&mut self, st: &State, a: u64) -> Option<String> {
        let (p, l, line, col) = {
            let (o, off) = self.obj(st, a)?;
            if off + 24 > o.size || !o.sym.is_empty() {
                return None;
            }
            let p = o.read(off, 8).ok()? as u64;
            let l = o.read(off + 8, 8).ok()? as u64;
            (p, l, o.read(off + 16, 4).ok()?, o.read(off + 20, 4).ok()?)
        };
        if l == 0 || l > 400 {
            return None;
        }
        let s = self.read_str(st, p, l);
        if s.contains(".rs") {
            Some(format!("{}:{}:{}", s, line, col))
        } else {
            None
        }
    }

    pub fn input_bytes(&self, st: &State, model: &Model) -> Vec<u8> {
        let mut ev = Eval::new(model);
        let mut out = Vec::new();
        for r in &st.inputs {
            for (e, n) in &r.parts {
                let v = ev.eval(*e);
                for i in 0..*n {
                    out.push((v >> (8 * i)) as u8);
                }
            }
        }
        out
    }

    fn violation(&mut self, st: &State, label: &str, msg: &str, model: Option<&Model>) {
        self.first_violation.get_or_insert_with(std::time::Instant::now);
        let key = format!("{}|{}", label, msg);
        let cnt = self.vio_keys.entry(key).or_insert(0);
        *cnt += 1;
        if *cnt > 3 {
            return;
        }
        let model = match model {
            Some(m) => m.clone(),
            None => (*st.model).clone(),
        };
        let input = self.input_bytes(st, &model);
        let mut ev = Eval::new(&model);
        let mut fields = Vec::new();
        for r in &st.inputs {
            let mut s = String::new();
            for (e, n) in &r.parts {
                let v = ev.eval(*e);
                if *n <= 8 && r.parts.len() == 1 {
                    s = format!("{}", v);
                } else {
                    for i in 0..*n {
                        s.push_str(&format!("{:02x}", (v >> (8 * i)) as u8));
                    }
                }
            }
            fields.push((r.name.clone(), s));
        }
        let hashes = self.hash_table(st, &model);
        let bt = self.backtrace(st);
        self.rep.violations.push(Violation { label: label.into(), msg: msg.into(), input, fields, hashes, backtrace: bt });
    }

    fn panic_at(&mut self, st: &mut State, f: &str, args: &[Val]) -> Out {
        let mut loc = None;
        for a in args.iter().rev() {
            if let Val::C(p, 64) = a {
                if let Some(l) = self.location(st, *p as u64) {
                    loc = Some(l);
                    break;
                }
            }
        }
        let mut text = String::new();
        // &str message for panic / panic_str style functions
        if args.len() >= 2 {
            if let (Val::C(p, 64), Val::C(n, 64)) = (&args[0], &args[1]) {
                if *n > 0 && *n < 300 {
                    let s = self.read_str(st, *p as u64, *n as u64);
                    if s.is_ascii() && s.len() as u128 == *n {
                        text = format!(" \"{}\"", s);
                    }
                }
            }
        }
        let mut where_ = loc.unwrap_or_else(|| "?".into());
        if where_ == "?" || !where_.contains("/repo/") {
            // name the innermost target function too
            if let Some(fr) = st.frames.iter().rev().find(|f| f.f.in_target) {
                where_ = format!("{} (in {})", where_, fr.f.pretty);
            }
        }
        let msg = format!("panic{} at {} [{}]", text, where_, f);
        st.trace.push(Tr::S("panic".into()));
        if st.panic_mode == 0 {
            self.violation(st, "panic", &msg, None);
        } else {
            self.rep.ended_panic_ok += 1;
        }
        Out::End
    }

    fn push_call(&mut self, st: &mut State, fid: usize, args: Vec<Val>, dst: u32) -> Out {
        if self.fsyms[fid].0 == usize::MAX {
            let n: Rc<str> = self.fsyms[fid].1.as_str().into();
            return self.builtin(st, &n, &args, &Ty::Int(64), dst, &[]);
        }
        let f = self.lower(fid);
        if f.is_text {
            self.set(st, dst, Val::C(0, 1));
            return Out::Next;
        }
        if f.num_text > 0 && !st.number_text {
            match self.load_n(st, &args[0], f.num_text) {
                Ok(Val::C(..)) => {}
                Ok(_) => {
                    self.set(st, dst, Val::C(0, 1));
                    return Out::Next;
                }
                Err(o) => return o,
            }
        }
        if f.is_panic {
            let p = f.pretty.clone();
            return self.panic_at(st, &p, &args);
        }
        if f.in_target && !self.rep.funcs.contains(&f.pretty) {
            self.rep.funcs.insert(f.pretty.clone());
        }
        if st.frames.len() > 400 {
            self.incon(st, "call depth".into());
            return Out::End;
        }
        let mut regs = vec![Val::C(0, 1); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args.into_iter()) {
            regs[*p as usize] = a;
        }
        // advance caller
        st.frames.last_mut().unwrap().ip += 1;
        let sp = st.sp;
        st.frames.push(Frame { f, fid, regs, bb: 0, ip: 0, dst, stack_mark: sp });
        Out::Jump
    }

    fn goto(&mut self, st: &mut State, to: u32) -> Out {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, v) in &blk.phis {
                let r = &v.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push((*d, match r {
                    R::K(v) => v.clone(),
                    R::Reg(i) => fr.regs[*i as usize].clone(),
                }));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Out::Jump
    }

    fn step(&mut self, st: &mut State) -> Out {
        let (f, bb, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.bb, fr.ip)
        };
        let li = &f.blocks[bb as usize].ins[ip];
        let dst = li.dst;
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(o) => return o,
                }
            };
        }
        match &li.op {
            LOp::Nop => Out::Next,
            LOp::Bin(op, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                if let (Val::C(p, w), Val::C(q, _)) = (&x, &y) {
                    let (p, q, w) = (*p, *q, *w);
                    let r = match op {
                        Bin::Add => p.wrapping_add(q),
                        Bin::Sub => p.wrapping_sub(q),
                        Bin::Mul => p.wrapping_mul(q),
                        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if q == 0 => {
                            self.violation(st, "div-by-zero", "division by zero", None);
                            return Out::End;
                        }
                        Bin::UDiv => p / q,
                        Bin::URem => p % q,
                        Bin::SDiv => sx(p, w).wrapping_div(sx(q, w)) as u128,
                        Bin::SRem => sx(p, w).wrapping_rem(sx(q, w)) as u128,
                        Bin::And => p & q,
                        Bin::Or => p | q,
                        Bin::Xor => p ^ q,
                        Bin::Shl => fold(Op::Shl, w, p, q),
                        Bin::LShr => fold(Op::LShr, w, p, q),
                        Bin::AShr => fold(Op::AShr, w, p, q),
                        _ => unreachable!(),
                    };
                    self.set(st, dst, Val::C(r & mask(w), w));
                    return Out::Next;
                }
                let (p, q) = (x.ex(), y.ex());
                if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && as_const(q).map_or(true, |k| k == 0) {
                    let z = eq(q, zero(width(q)));
                    match self.branch(st, z) {
                        None => return Out::End,
                        Some(true) => {
                            self.violation(st, "div-by-zero", "division by zero", None);
                            return Out::End;
                        }
                        Some(false) => {}
                    }
                }
                let r = match op {
                    Bin::Add => add(p, q),
                    Bin::Sub => sub(p, q),
                    Bin::Mul => mul(p, q),
                    Bin::UDiv => udiv(p, q),
                    Bin::URem => urem(p, q),
                    Bin::SDiv => sdiv(p, q),
                    Bin::SRem => srem(p, q),
                    Bin::And => and(p, q),
                    Bin::Or => or(p, q),
                    Bin::Xor => xor(p, q),
                    Bin::Shl => shl(p, q),
                    Bin::LShr => lshr(p, q),
                    Bin::AShr => ashr(p, q),
                    _ => unreachable!(),
                };
                self.set(st, dst, Val::of(r));
                Out::Next
            }
            LOp::ICmp(p, a, b) => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                if let (Val::C(u, w), Val::C(v, _)) = (&x, &y) {
                    let (u, v, w) = (*u, *v, *w);
                    let r = match p {
                        Pred::Eq => u == v,
                        Pred::Ne => u != v,
                        Pred::Ugt => u > v,
                        Pred::Uge => u >= v,
                        Pred::Ult => u < v,
                        Pred::Ule => u <= v,
                        Pred::Sgt => sx(u, w) > sx(v, w),
                        Pred::Sge => sx(u, w) >= sx(v, w),
                        Pred::Slt => sx(u, w) < sx(v, w),
                        Pred::Sle => sx(u, w) <= sx(v, w),
                    };
                    self.set(st, dst, Val::C(r as u128, 1));
                    return Out::Next;
                }
                let (u, v) = (x.ex(), y.ex());
                let r = match p {
                    Pred::Eq => eq(u, v),
                    Pred::Ne => ne(u, v),
                    Pred::Ugt => ult(v, u),
                    Pred::Uge => ule(v, u),
                    Pred::Ult => ult(u, v),
                    Pred::Ule => ule(u, v),
                    Pred::Sgt => slt(v, u),
                    Pred::Sge => sle(v, u),
                    Pred::Slt => slt(u, v),
                    Pred::Sle => sle(u, v),
                };
                self.set(st, dst, Val::of(r));
                Out::Next
            }
            LOp::Trunc(a, w) => {
                let v = match self.val(st, a) {
                    Val::C(k, _) => Val::C(k & mask(*w), *w),
                    Val::E(e) => Val::of(extract(e, 0, *w)),
                    _ => panic!(),
                };
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Zext(a, w) => {
                let v = match self.val(st, a) {
                    Val::C(k, _) if *w <= 128 => Val::C(k, *w),
                    v => Val::of(zext(v.ex(), *w)),
                };
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Sext(a, w) => {
                let v = match self.val(st, a) {
                    Val::C(k, iw) if *w <= 128 => Val::C(sx(k, iw) as u128 & mask(*w), *w),
                    v => Val::of(sext(v.ex(), *w)),
                };
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Copy(a) => {
                let v = self.val(st, a);
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Select(cn, a, b) => {
                let cv = self.val(st, cn);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = match cv {
                    Val::C(k, _) => {
                        if k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::E(e) => sel(e, &x, &y),
                    Val::A(_) => {
                        self.incon(st, "vector select".into());
                        return Out::End;
                    }
                };
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Alloca(sz, n) => {
                let n = match self.val(st, n) {
                    Val::C(k, _) => k as u64,
                    _ => {
                        self.incon(st, "symbolic alloca".into());
                        return Out::End;
                    }
                };
                let id = st.sp;
                st.sp += 1;
                st.stack.set(id, Some(Rc::new(Obj::new(sz * n))));
                self.set(st, dst, Val::C(addr(STACK, id) as u128, 64));
                Out::Next
            }
            LOp::Load(t, p) => {
                let p = self.val(st, p);
                let v = tr!(self.load_ty(st, t, &p));
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Store(t, v, p) => {
                let p = self.val(st, p);
                let v = self.val(st, v);
                tr!(self.store_ty(st, t, &p, &v));
                Out::Next
            }
            LOp::Gep(b, off, dynv) => {
                let b = self.val(st, b);
                let mut v = self.ptr_add(&b, *off);
                for (r, s) in dynv {
                    match self.val(st, r) {
                        Val::C(k, w) => v = self.ptr_add(&v, (sx(k, w) as u64).wrapping_mul(*s)),
                        Val::E(e) => {
                            let i = mul(sext(e, 64), c(*s as u128, 64));
                            v = Val::of(add(v.ex(), i));
                        }
                        _ => panic!(),
                    }
                }
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Extract(a, idx) => {
                let mut v = self.val(st, a);
                for &i in idx {
                    v = match v {
                        Val::A(f) => f[i].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, dst, v);
                Out::Next
            }
            LOp::Insert(a, b, idx) => {
                let v = self.val(st, a);
                let x = self.val(st, b);
                let r = insert(&v, idx, x);
                self.set(st, dst, r);
                Out::Next
            }
            LOp::ExtractEl(a, i) => {
                let v = self.val(st, a);
                let i = self.val(st, i);
                match (v, i) {
                    (Val::A(f), Val::C(k, _)) => {
                        self.set(st, dst, f[k as usize].clone());
                        Out::Next
                    }
                    _ => {
                        self.incon(st, "extractelement".into());
                        Out::End
                    }
                }
            }
            LOp::InsertEl(a, x, i) => {
                let v = self.val(st, a);
                let x = self.val(st, x);
                match (v, self.val(st, i)) {
                    (Val::A(f), Val::C(k, _)) => {
                        let mut f = (*f).clone();
                        f[k as usize] = x;
                        self.set(st, dst, Val::A(Rc::new(f)));
                        Out::Next
                    }
                    _ => {
                        self.incon(st, "insertelement".into());
                        Out::End
                    }
                }
            }
            LOp::CallFn(fid, args) => {
                let a: Vec<Val> = args.iter().map(|r| self.val(st, r)).collect();
                self.push_call(st, *fid, a, dst)
            }
            LOp::CallInd(p, args) => {
                let p = self.val(st, p);
                let a = tr!(self.concretize(st, &p)) as u64;
                if a < FN_BASE || ((a - FN_BASE) / 16) as usize >= self.fsyms.len() {
                    return self.mem_error(st, "indirect call", a, 0);
                }
                let fid = ((a - FN_BASE) / 16) as usize;
                let av: Vec<Val> = args.iter().map(|r| self.val(st, r)).collect();
                self.push_call(st, fid, av, dst)
            }
            LOp::CallB(n, args, rt, tys) => {
                let a: Vec<Val> = args.iter().map(|r| self.val(st, r)).collect();
                let n = n.clone();
                self.builtin(st, &n, &a, rt, dst, tys)
            }
            LOp::Rmw(o, t, p, v) => {
                let p = self.val(st, p);
                let v = self.val(st, v);
                let old = tr!(self.load_ty(st, t, &p));
                let (a, b) = (old.ex(), v.ex());
                let r = match o.as_str() {
                    "xchg" => b,
                    "add" => add(a, b),
                    "sub" => sub(a, b),
                    "and" => and(a, b),
                    "or" => or(a, b),
                    "xor" => xor(a, b),
                    "nand" => not(and(a, b)),
                    "umax" => ite(ult(a, b), b, a),
                    "umin" => ite(ult(a, b), a, b),
                    "max" => ite(slt(a, b), b, a),
                    "min" => ite(slt(a, b), a, b),
                    _ => {
                        self.incon(st, format!("atomicrmw {}", o));
                        return Out::End;
                    }
                };
                tr!(self.store_ty(st, t, &p, &Val::of(r)));
                self.set(st, dst, old);
                Out::Next
            }
            LOp::CmpXchg(t, p, a, b) => {
                let p = self.val(st, p);
                let old = tr!(self.load_ty(st, t, &p));
                let (x, y) = (self.val(st, a), self.val(st, b));
                let same = eq(old.ex(), x.ex());
                let nv = ite(same, y.ex(), old.ex());
                tr!(self.store_ty(st, t, &p, &Val::of(nv)));
                self.set(st, dst, Val::A(Rc::new(vec![old, Val::of(same)])));
                Out::Next
            }
            LOp::Br(l) => self.goto(st, *l),
            LOp::CondBr(r, a, b) => {
                let v = self.val(st, r);
                let t = match v {
                    Val::C(k, _) => k == 1,
                    Val::E(e) => match self.branch(st, e) {
                        Some(t) => t,
                        None => return Out::End,
                    },
                    _ => panic!(),
                };
                self.goto(st, if t { *a } else { *b })
            }
            LOp::Switch(r, d, cs) => {
                let v = self.val(st, r);
                match v {
                    Val::C(k, _) => {
                        let to = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        self.goto(st, to)
                    }
                    Val::E(e) => {
                        // pick the target taken under the model, fork the rest away
                        let k = Eval::new(&st.model).eval(e);
                        let to = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        let w = width(e);
                        let mut cnd = fals();
                        if to == *d {
                            cnd = tru();
                            for (x, l) in cs {
                                if *l != to {
                                    cnd = and(cnd, ne(e, c(*x, w)));
                                }
                            }
                        } else {
                            for (x, l) in cs {
                                if *l == to {
                                    cnd = or(cnd, eq(e, c(*x, w)));
                                }
                            }
                        }
                        match self.branch(st, cnd) {
                            None => Out::End,
                            Some(true) => self.goto(st, to),
                            Some(false) => Out::Retry,
                        }
                    }
                    _ => panic!(),
                }
            }
            LOp::Ret(v) => {
                let v = v.as_ref().map(|r| self.val(st, r));
                let fr = st.frames.pop().unwrap();
                while st.sp > fr.stack_mark {
                    st.sp -= 1;
                    let id = st.sp;
                    st.stack.set(id, None);
                }
                if st.frames.is_empty() {
                    self.rep.ended_ok += 1;
                    return Out::End;
                }
                if let Some(v) = v {
                    self.set(st, fr.dst, v);
                }
                Out::Jump
            }
            LOp::Unreachable => {
                self.violation(st, "unreachable", "unreachable code executed", None);
                Out::End
            }
            LOp::Unsupported(s) => {
                let s = format!("unsupported: {}", s);
                self.incon(st, s);
                Out::End
            }
            LOp::FBin(op, w, a, b) => match (self.val(st, a), self.val(st, b)) {
                (Val::C(x, _), Val::C(y, _)) => {
                    let r = if *w == 64 {
                        let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        (match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            Bin::FDiv => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u128
                    } else {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            Bin::FDiv => p / q,
                            _ => p % q,
                        })
                        .to_bits() as u128
                    };
                    self.set(st, dst, Val::C(r, *w));
                    Out::Next
                }
                _ => {
                    self.incon(st, "symbolic float arithmetic".into());
                    Out::End
                }
            },
            LOp::FNeg(w, a) => {
                let v = self.val(st, a);
                let r = xor(v.ex(), c(1u128 << (w - 1), *w));
                self.set(st, dst, Val::of(r));
                Out::Next
            }
            LOp::FCmp(p, w, a, b) => match (self.val(st, a), self.val(st, b)) {
                (Val::C(x, _), Val::C(y, _)) => {
                    let (x, y) = if *w == 64 {
                        (f64::from_bits(x as u64), f64::from_bits(y as u64))
                    } else {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() {
                        "oeq" => x == y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        "uno" => un,
                        "true" => true,
                        _ => false,
                    };
                    self.set(st, dst, Val::C(r as u128, 1));
                    Out::Next
                }
                _ => {
                    self.incon(st, "symbolic float comparison".into());
                    Out::End
                }
            },
            LOp::FCast(k, a, x, b) => match self.val(st, x) {
                Val::C(v, _) => {
                    let asf = |v: u128, w: u32| if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                    let tof = |f: f64, w: u32| if w == 64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 };
                    let r = match k.as_str() {
                        "uitofp" => {
                            if *b == 64 {
                                (v as f64).to_bits() as u128
                            } else {
                                (v as f32).to_bits() as u128
                            }
                        }
                        "sitofp" => {
                            let s = sx(v, *a);
                            if *b == 64 {
                                (s as f64).to_bits() as u128
                            } else {
                                (s as f32).to_bits() as u128
                            }
                        }
                        "fptoui" => asf(v, *a) as u128,
                        "fptosi" => asf(v, *a) as i128 as u128,
                        "fpext" | "fptrunc" => tof(asf(v, *a), *b),
                        _ => {
                            self.incon(st, format!("cast {}", k));
                            return Out::End;
                        }
                    };
                    self.set(st, dst, Val::C(r & mask(*b), *b));
                    Out::Next
                }
                _ => {
                    self.incon(st, "symbolic float cast".into());
                    Out::End
                }
            },
        }
    }

    fn vx_input(&mut self, st: &mut State, name: &str, n: u64) -> Vec<Ex> {
        // returns byte expressions
        let mut parts = Vec::new();
        let mut bytes = Vec::new();
        let mut left = n;
        let mut idx = 0;
        while left > 0 {
            let k = if left >= 8 {
                8
            } else if left >= 4 {
                4
            } else if left >= 2 {
                2
            } else {
                1
            };
            let e = if let Some(cb) = &self.cfg.concrete {
                let mut v = 0u128;
                for i in 0..k {
                    let b = cb.get(self.concrete_pos + i as usize).copied().unwrap_or(0);
                    v |= (b as u128) << (8 * i);
                }
                self.concrete_pos += k as usize;
                c(v, (k * 8) as u32)
            } else {
                var(&format!("{}#{}", name, idx), (k * 8) as u32)
            };
            idx += 1;
            parts.push((e, k as u32));
            for i in 0..k {
                bytes.push(extract(e, (8 * i) as u32, 8));
            }
            left -= k;
        }
        st.inputs.push(InputRec { name: name.to_string(), parts });
        bytes
    }

    fn do_hash(&mut self, st: &mut State, kind: u64, input: Vec<Ex>) -> [Ex; 8] {
        let concrete: Option<Vec<u8>> = input.iter().map(|e| as_const(*e).map(|k| k as u8)).collect();
        for h in &st.hashes {
            if h.kind == kind && *h.input == input {
                return h.out;
            }
        }
        let out: [Ex; 8];
        let nw = 8;
        if let Some(b) = &concrete {
            let d = crate::sha::digest(kind, b);
            let mut o = [fals(); 8];
            for i in 0..nw {
                let mut v = 0u128;
                for j in 0..8 {
                    v |= (d[i * 8 + j] as u128) << (8 * j);
                }
                o[i] = c(v, 64);
            }
            out = o;
        } else {
            let mut o = [fals(); 8];
            let n = st.hashes.len();
            for i in 0..nw {
                o[i] = var(&format!("H{}_{}#{}", kind, n, i), 64);
            }
            if is32(kind) {
                // 32-byte digest
                for i in 4..8 {
                    o[i] = c(0, 64);
                }
            }
            out = o;
        }
        let ow = if is32(kind) { 4 } else { 8 };
        let input = Rc::new(input);
        // choose a model value for the outputs first
        if concrete.is_none() {
            let mut m = (*st.model).clone();
            let mut chosen: Option<Vec<u128>> = None;
            {
                let mut ev = Eval::new(&st.model);
                let iv: Vec<u128> = input.iter().map(|e| ev.eval(*e)).collect();
                for h in &st.hashes {
                    if h.kind == kind && h.input.len() == iv.len() && h.input.iter().zip(&iv).all(|(e, v)| ev.eval(*e) == *v) {
                        chosen = Some(h.out.iter().map(|e| ev.eval(*e)).collect());
                        break;
                    }
                }
            }
            let vals = chosen.unwrap_or_else(|| (0..8).map(|_| self.rand() as u128).collect());
            for i in 0..ow {
                m.insert(node(out[i]).k as u32, vals[i]);
            }
            st.model = Rc::new(m);
        }
        let apps = st.hashes.clone();
        for h in &apps {
            if h.kind != kind {
                continue;
            }
            let mut oe = tru();
            for i in 0..ow {
                oe = and(oe, eq(out[i], h.out[i]));
            }
            let con = if h.input.len() != input.len() {
                not(oe)
            } else {
                let ie = bytes_eq(&input, &h.input);
                eq(ie, oe)
            };
            if self.cfg.ideal_hash || as_const(con).is_none() {
                self.constrain(st, con);
            }
        }
        if concrete.is_none() {
            let mut z = tru();
            for i in 0..ow {
                z = and(z, eq(out[i], c(0, 64)));
            }
            self.constrain(st, not(z));
        }
        st.hashes.push(HashApp { kind, input, out });
        out
    }

    fn builtin(&mut self, st: &mut State, name: &str, a: &[Val], rt: &Ty, dst: u32, tys: &[Ty]) -> Out {
        macro_rules! tr {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(o) => return o,
                }
            };
        }
        macro_rules! ret {
            ($e:expr) => {{
                let v: Ex = $e;
                self.set(st, dst, Val::of(v));
                return Out::Next;
            }};
        }
        if let Some(x) = name.strip_prefix("llvm.") {
            let base = x;
            if base.starts_with("memcpy") || base.starts_with("memmove") {
                let n = tr!(self.concretize(st, &a[2])) as u64;
                tr!(self.memcpy(st, &a[0], &a[1], n));
                return Out::Next;
            }
            if base.starts_with("memset") {
                let n = tr!(self.concretize(st, &a[2])) as u64;
                let b = a[1].ex();
                tr!(self.write_bytes(st, &a[0], &vec![b; n as usize]));
                return Out::Next;
            }
            if base.starts_with("umin") || base.starts_with("umax") || base.starts_with("smin") || base.starts_with("smax") {
                let (x, y) = (a[0].ex(), a[1].ex());
                let l = if base.starts_with('u') { ult(x, y) } else { slt(x, y) };
                ret!(if base[1..].starts_with("min") { ite(l, x, y) } else { ite(l, y, x) });
            }
            if base.starts_with("abs.") {
                let x = a[0].ex();
                let n = slt(x, zero(width(x)));
                ret!(ite(n, neg(x), x));
            }
            for (p, op) in [("uadd.with", 0), ("usub.with", 1), ("umul.with", 2), ("sadd.with", 3), ("ssub.with", 4), ("smul.with", 5)] {
                if base.starts_with(p) {
                    let (x, y) = (a[0].ex(), a[1].ex());
                    let w = width(x);
                    let (r, o) = ovf(op, x, y, w);
                    let r = match (r, o) {
                        (Some(r), Some(o)) => (r, o),
                        _ => {
                            self.incon(st, format!("{} on i{}", name, w));
                            return Out::End;
                        }
                    };
                    self.set(st, dst, Val::A(Rc::new(vec![Val::of(r.0), Val::of(r.1)])));
                    return Out::Next;
                }
            }
            for (p, op) in [("uadd.sat", 0), ("usub.sat", 1), ("sadd.sat", 3), ("ssub.sat", 4)] {
                if base.starts_with(p) {
                    let (x, y) = (a[0].ex(), a[1].ex());
                    let w = width(x);
                    if op == 0 {
                        ret!(sat_add(x, y));
                    }
                    let (r, o) = ovf(op, x, y, w);
                    let (r, o) = (r.unwrap(), o.unwrap());
                    let lim = match op {
                        1 => c(0, w),
                        _ => {
                            let neg_ = extract(x, w - 1, 1);
                            ite(neg_, c(1u128 << (w - 1), w), c(mask(w - 1), w))
                        }
                    };
                    ret!(ite(o, lim, r));
                }
            }
            if base.starts_with("ucmp") || base.starts_with("scmp") {
                let (x, y) = (a[0].ex(), a[1].ex());
                let w = rt.bits();
                let l = if base.starts_with('u') { ult(x, y) } else { slt(x, y) };
                ret!(ite(l, c(mask(w), w), ite(eq(x, y), c(0, w), c(1, w))));
            }
            if base.starts_with("fshl") || base.starts_with("fshr") {
                let (x, y, s) = (a[0].ex(), a[1].ex(), a[2].ex());
                let w = width(x);
                let s = urem(s, c(w as u128, w));
                if let Some(k) = as_const(s) {
                    let k = k as u32;
                    if base.starts_with("fshl") {
                        ret!(if k == 0 { x } else { concat(extract(x, 0, w - k), extract(y, w - k, k)) });
                    } else {
                        ret!(if k == 0 { y } else { concat(extract(x, 0, k), extract(y, k, w - k)) });
                    }
                }
                let is0 = eq(s, c(0, w));
                let inv = sub(c(w as u128, w), s);
                ret!(if base.starts_with("fshl") {
                    ite(is0, x, or(shl(x, s), lshr(y, inv)))
                } else {
                    ite(is0, y, or(shl(x, inv), lshr(y, s)))
                });
            }
            if base.starts_with("bswap") {
                let x = a[0].ex();
                let n = width(x) / 8;
                let mut r = extract(x, 0, 8);
                for i in 1..n {
                    r = concat(r, extract(x, 8 * i, 8));
                }
                ret!(r);
            }
            if base.starts_with("bitreverse") {
                let x = a[0].ex();
                let n = width(x);
                let mut r = extract(x, 0, 1);
                for i in 1..n {
                    r = concat(r, extract(x, i, 1));
                }
                ret!(r);
            }
            if base.starts_with("ctpop") {
                let x = a[0].ex();
                let n = width(x);
                let mut r = zero(n);
                for i in 0..n {
                    r = add(r, zext(extract(x, i, 1), n));
                }
                ret!(r);
            }
            if base.starts_with("ctlz") || base.starts_with("cttz") {
                let x = a[0].ex();
                let n = width(x);
                if let Some(k) = as_const(x) {
                    let r = if k == 0 {
                        n
                    } else if base.starts_with("ctlz") {
                        n - (128 - k.leading_zeros())
                    } else {
                        k.trailing_zeros()
                    };
                    ret!(c(r as u128, n));
                }
                let mut r = c(n as u128, n);
                if base.starts_with("ctlz") {
                    for i in 0..n {
                        r = ite(eq(extract(x, i, 1), tru()), c((n - 1 - i) as u128, n), r);
                    }
                } else {
                    for i in (0..n).rev() {
                        r = ite(eq(extract(x, i, 1), tru()), c(i as u128, n), r);
                    }
                }
                ret!(r);
            }
            if base.starts_with("expect") || base.starts_with("threadlocal.address") || base.starts_with("launder") || base.starts_with("strip") {
                let v = a[0].clone();
                self.set(st, dst, v);
                return Out::Next;
            }
            if base.starts_with("ptrmask") {
                ret!(and(a[0].ex(), a[1].ex()));
            }
            if base.starts_with("is.constant") {
                ret!(fals());
            }
            if base == "trap" || base.starts_with("debugtrap") || base.starts_with("ubsantrap") {
                return self.panic_at(st, "trap", &[]);
            }
            // floats
            let cs: Option<Vec<u128>> = a.iter().map(|v| if let Val::C(k, _) = v { Some(*k) } else { None }).collect();
            if let Some(cs) = cs {
                let w = tys.get(0).map(|t| t.bits()).unwrap_or(64);
                let f = |i: usize| if w == 64 { f64::from_bits(cs[i] as u64) } else { f32::from_bits(cs[i] as u32) as f64 };
                let fr = |x: f64| if w == 64 { c(x.to_bits() as u128, 64) } else { c((x as f32).to_bits() as u128, 32) };
                let fam = base.split('.').next().unwrap();
                match fam {
                    "fabs" => ret!(fr(f(0).abs())),
                    "sqrt" => ret!(fr(f(0).sqrt())),
                    "floor" => ret!(fr(f(0).floor())),
                    "ceil" => ret!(fr(f(0).ceil())),
                    "trunc" => ret!(fr(f(0).trunc())),
                    "round" => ret!(fr(f(0).round())),
                    "log" => ret!(fr(f(0).ln())),
                    "log2" => ret!(fr(f(0).log2())),
                    "log10" => ret!(fr(f(0).log10())),
                    "exp" => ret!(fr(f(0).exp())),
                    "exp2" => ret!(fr(f(0).exp2())),
                    "sin" => ret!(fr(f(0).sin())),
                    "cos" => ret!(fr(f(0).cos())),
                    "pow" => ret!(fr(f(0).powf(f(1)))),
                    "powi" => ret!(fr(f(0).powi(cs[1] as u32 as i32))),
                    "fma" | "fmuladd" => ret!(fr(f(0).mul_add(f(1), f(2)))),
                    "copysign" => ret!(fr(f(0).copysign(f(1)))),
                    "minnum" => ret!(fr(f(0).min(f(1)))),
                    "maxnum" => ret!(fr(f(0).max(f(1)))),
                    "fptoui" => {
                        let rw = rt.bits();
                        let x = f(0);
                        let r = if x.is_nan() || x <= 0.0 {
                            0
                        } else if x >= (mask(rw) as f64) {
                            mask(rw)
                        } else {
                            x as u128
                        };
                        ret!(c(r, rw));
                    }
                    "fptosi" => {
                        let rw = rt.bits();
                        let x = f(0);
                        let mx = mask(rw - 1) as i128;
                        let r = if x.is_nan() {
                            0
                        } else if x >= mx as f64 {
                            mx
                        } else if x <= -(mx as f64) - 1.0 {
                            -mx - 1
                        } else {
                            x as i128
                        };
                        ret!(c(r as u128, rw));
                    }
                    _ => {}
                }
            }
            self.incon(st, format!("intrinsic {}", name));
            return Out::End;
        }
        match name {
            "rt.nop" => Out::Next,
            "rt.alloc" | "rt.alloc_zeroed" | "malloc" => {
                let mut bound = None;
                if let (true, Val::E(e)) = (st.fork_offsets, &a[0]) {
                    // capacities computed from symbolic lengths: one object that is large enough for all of them
                    for b in [64u128, 1024, 1 << 14, 1 << 18, 1 << 20, (1 << 22) - 1] {
                        if let Res::Unsat = self.solver.check(&st.pc, not(ule(*e, c(b, 64)))) {
                            bound = Some(b as u64);
                            break;
                        }
                    }
                }
                let n = match bound {
                    Some(b) => b,
                    None => tr!(self.concretize(st, &a[0])) as u64,
                };
                match self.heap_alloc(st, n) {
                    Some(p) => ret!(c(p as u128, 64)),
                    None => {
                        self.incon(st, format!("allocation of {} bytes", n));
                        Out::End
                    }
                }
            }
            "rt.dealloc" | "free" => {
                let p = tr!(self.concretize(st, &a[0])) as u64;
                if name == "free" && p == 0 {
                    return Out::Next;
                }
                let id = (p >> SLOT) as usize;
                let ok = p >> REGION_SHIFT == HEAP && p & ((1 << SLOT) - 1) == 0 && st.heap.get(id).is_some();
                if !ok {
                    return self.mem_error(st, "free", p, 0);
                }
                st.heap.set(id, None);
                Out::Next
            }
            "rt.realloc" => {
                let p = tr!(self.concretize(st, &a[0])) as u64;
                let n = tr!(self.concretize(st, &a[3])) as u64;
                let id = (p >> SLOT) as usize;
                let old = match st.heap.get(id) {
                    Some(o) if p >> REGION_SHIFT == HEAP => o.clone(),
                    _ => return self.mem_error(st, "realloc", p, n),
                };
                match self.heap_alloc(st, n) {
                    Some(q) => {
                        let m = n.min(old.size);
                        tr!(self.memcpy(st, &Val::C(q as u128, 64), &Val::C(p as u128, 64), m));
                        st.heap.set(id, None);
                        ret!(c(q as u128, 64))
                    }
                    None => {
                        self.incon(st, format!("allocation of {} bytes", n));
                        Out::End
                    }
                }
            }
            "memcpy" | "memmove" => {
                let n = tr!(self.concretize(st, &a[2])) as u64;
                tr!(self.memcpy(st, &a[0], &a[1], n));
                self.set(st, dst, a[0].clone());
                Out::Next
            }
            "memset" => {
                let n = tr!(self.concretize(st, &a[2])) as u64;
                let b = extract(a[1].ex(), 0, 8);
                tr!(self.write_bytes(st, &a[0], &vec![b; n as usize]));
                self.set(st, dst, a[0].clone());
                Out::Next
            }
            "bcmp" | "memcmp" => {
                let n = tr!(self.concretize(st, &a[2])) as u64;
                let x = tr!(self.read_bytes(st, &a[0], n));
                let y = tr!(self.read_bytes(st, &a[1], n));
                if name == "bcmp" {
                    let e = bytes_eq(&x, &y);
                    ret!(zext(not(e), 32));
                }
                let mut r = c(0, 32);
                for i in (0..n as usize).rev() {
                    r = ite(eq(x[i], y[i]), r, ite(ult(x[i], y[i]), c(0xffff_ffff, 32), c(1, 32)));
                }
                ret!(r)
            }
            "strlen" => {
                let p = tr!(self.concretize(st, &a[0])) as u64;
                let n = match self.obj(st, p) {
                    Some((o, off)) => {
                        let mut i = off;
                        while i < o.size && o.data[i as usize] != 0 {
                            i += 1;
                        }
                        i - off
                    }
                    None => return self.mem_error(st, "strlen", p, 1),
                };
                ret!(c(n as u128, 64))
            }
            "vx_bytes" => {
                let p = tr!(self.concretize(st, &a[0]));
                let n = tr!(self.concretize(st, &a[1])) as u64;
                let np = tr!(self.concretize(st, &a[2])) as u64;
                let nl = tr!(self.concretize(st, &a[3])) as u64;
                let name = self.read_str(st, np, nl);
                let b = self.vx_input(st, &name, n);
                tr!(self.write_bytes(st, &Val::C(p, 64), &b));
                Out::Next
            }
            "vx_is_engine" => ret!(c(1, 64)),
            "vx_tier" => ret!(c(self.cfg.tier as u128, 64)),
            "vx_assume" => {
                let e = ne(a[0].ex(), zero(a[0].w()));
                if let Some(k) = as_const(e).or(st.known.get(&e).copied()) {
                    if k == 1 {
                        return Out::Next;
                    }
                    self.rep.assumed_away += 1;
                    st.trace.push(Tr::S("assume-false".into()));
                    return Out::End;
                }
                if self.holds(st, e) {
                    self.constrain(st, e);
                    return Out::Next;
                }
                match self.solver.check(&st.pc, e) {
                    Res::Sat(m) => {
                        st.model = self.merged(st, &m);
                        self.constrain(st, e);
                        Out::Next
                    }
                    Res::Unsat => {
                        self.rep.assumed_away += 1;
                        Out::End
                    }
                    Res::Unknown => {
                        self.incon(st, "solver gave up on an assumption".into());
                        Out::End
                    }
                }
            }
            "vx_assert" => {
                let e = ne(a[0].ex(), zero(a[0].w()));
                let lp = tr!(self.concretize(st, &a[1])) as u64;
                let ll = tr!(self.concretize(st, &a[2])) as u64;
                let label = self.read_str(st, lp, ll);
                self.rep.asserts += 1;
                if let Some(k) = as_const(e).or(st.known.get(&e).copied()) {
                    self.rep.asserts_const += 1;
                    if k == 1 {
                        return Out::Next;
                    }
                    st.trace.push(Tr::S(format!("assert-failed {}", label)));
                    self.violation(st, &label, "assertion failed", None);
                    return Out::End;
                }
                match self.solver.check(&st.pc, not(e)) {
                    Res::Unsat => {
                        st.known.insert(e, 1);
                        st.known.insert(not(e), 0);
                        Out::Next
                    }
                    Res::Sat(m) => {
                        let mm = self.merged(st, &m);
                        self.violation(st, &label, "assertion failed", Some(&mm));
                        // continue on the passing side, if any
                        match self.solver.check(&st.pc, e) {
                            Res::Sat(m) => {
                                st.model = self.merged(st, &m);
                                self.constrain(st, e);
                                Out::Next
                            }
                            _ => Out::End,
                        }
                    }
                    Res::Unknown => {
                        self.incon(st, format!("solver gave up on assertion '{}'", label));
                        Out::End
                    }
                }
            }
            "vx_cover" => {
                let lp = tr!(self.concretize(st, &a[0])) as u64;
                let ll = tr!(self.concretize(st, &a[1])) as u64;
                let label = self.read_str(st, lp, ll);
                st.trace.push(Tr::S(format!("cover {}", label)));
                *self.rep.covers.entry(label).or_insert(0) += 1;
                Out::Next
            }
            "vx_choose" => {
                // concrete index in 0..n, one path per value
                let n = tr!(self.concretize(st, &a[0])) as u64;
                let np = tr!(self.concretize(st, &a[1])) as u64;
                let nl = tr!(self.concretize(st, &a[2])) as u64;
                let name = self.read_str(st, np, nl);
                if n == 0 {
                    return Out::End;
                }
                if n > 256 {
                    self.incon(st, format!("choice among {} values", n));
                    return Out::End;
                }
                if self.cfg.concrete.is_some() {
                    let b = self.vx_input(st, &name, 1);
                    let k = as_const(b[0]).unwrap() as u64 % n;
                    ret!(c(k as u128, 64));
                }
                for k in (1..n).rev() {
                    let mut s2 = st.clone();
                    s2.inputs.push(InputRec { name: name.clone(), parts: vec![(c(k as u128, 8), 1)] });
                    self.set(&mut s2, dst, Val::C(k as u128, 64));
                    s2.frames.last_mut().unwrap().ip += 1;
                    self.rep.forks += 1;
                    self.work.push(s2);
                }
                st.inputs.push(InputRec { name, parts: vec![(c(0, 8), 1)] });
                ret!(c(0, 64))
            }
            "vx_concretize" => {
                let k = tr!(self.concretize(st, &a[0]));
                ret!(c(k, 64))
            }
            "vx_panic_mode" => {
                match tr!(self.concretize(st, &a[0])) as u64 {
                    m @ (0 | 1) => st.panic_mode = m,
                    m @ (2 | 3) => st.fork_offsets = m == 2,
                    m => st.number_text = m == 4,
                }
                Out::Next
            }
            "vx_trace" => {
                st.trace.push(Tr::V(a[0].ex()));
                Out::Next
            }
            "vx_hash" => {
                let kind = tr!(self.concretize(st, &a[0])) as u64;
                let n = tr!(self.concretize(st, &a[2])) as u64;
                let input = tr!(self.read_bytes(st, &a[1], n));
                let op = tr!(self.concretize(st, &a[3]));
                let out = self.do_hash(st, kind, input);
                let mut b = Vec::new();
                for q in out.iter().take(if is32(kind) { 4 } else { 8 }) {
                    for i in 0..8 {
                        b.push(extract(*q, 8 * i, 8));
                    }
                }
                tr!(self.write_bytes(st, &Val::C(op, 64), &b));
                Out::Next
            }
            "vx_unsupported" => {
                let lp = tr!(self.concretize(st, &a[0])) as u64;
                let ll = tr!(self.concretize(st, &a[1])) as u64;
                let label = self.read_str(st, lp, ll);
                self.incon(st, label);
                Out::End
            }
            "vx_set_clock" => {
                st.clock = Some(a[0].ex());
                Out::Next
            }
            "clock_gettime" => {
                let t = match st.clock {
                    Some(t) => t,
                    None => {
                        self.incon(st, "the clock was read".into());
                        return Out::End;
                    }
                };
                let mut b: Vec<Ex> = (0..8).map(|i| extract(t, 8 * i, 8)).collect();
                b.extend((0..8).map(|_| c(0, 8)));
                tr!(self.write_bytes(st, &a[1], &b));
                ret!(c(0, 32))
            }
            // entropy (hash-map keys, generated secrets): fixed byte strings, different for every call
            "syscall" | "getrandom" => {
                let k = if name == "syscall" { 1 } else { 0 };
                if k == 1 {
                    let nr = tr!(self.concretize(st, &a[0])) as u64;
                    if nr != 278 {
                        self.incon(st, format!("system call {}", nr));
                        return Out::End;
                    }
                }
                let n = tr!(self.concretize(st, &a[k + 1])) as u64;
                let q = st.rng;
                st.rng += 1;
                let b: Vec<Ex> = (0..n).map(|i| if i < 4 { c((q >> (8 * i)) as u128 & 255, 8) } else { c((i * 37 + 11) as u128 & 255, 8) }).collect();
                tr!(self.write_bytes(st, &a[k], &b));
                ret!(c(n as u128, rt.bits()))
            }
            "__errno_location" => ret!(c(addr(GLOBAL, self.errno) as u128, 64)),
            "open64" | "open" | "openat64" | "stat64" | "statx" | "lstat64" | "mkdir" | "unlink" | "rename" => ret!(c(mask(rt.bits()), rt.bits())),
            "write" | "writev" => ret!(a[2].ex()),
            "getenv" | "pthread_self" => ret!(c(0, 64)),
            "pthread_key_create" => {
                tr!(self.write_bytes(st, &a[0], &[c(1, 8), c(0, 8), c(0, 8), c(0, 8)]));
                ret!(c(0, 32))
            }
            "pthread_setspecific" | "pthread_key_delete" => ret!(c(0, 32)),
            "__cxa_thread_atexit_impl" => ret!(c(0, 32)),
            "sched_yield" => ret!(c(0, 32)),
            "log1p" | "cbrt" | "tan" | "expm1" | "log" | "exp" | "pow" => match &a[0] {
                Val::C(k, 64) => {
                    let x = f64::from_bits(*k as u64);
                    let r = match name {
                        "log1p" => x.ln_1p(),
                        "cbrt" => x.cbrt(),
                        "tan" => x.tan(),
                        "expm1" => x.exp_m1(),
                        "log" => x.ln(),
                        "exp" => x.exp(),
                        _ => match &a[1] {
                            Val::C(q, _) => x.powf(f64::from_bits(*q as u64)),
                            _ => {
                                self.incon(st, "symbolic float".into());
                                return Out::End;
                            }
                        },
                    };
                    ret!(c(r.to_bits() as u128, 64))
                }
                _ => {
                    self.incon(st, "symbolic float".into());
                    Out::End
                }
            },
            "abort" | "exit" | "_exit" => self.panic_at(st, name, &[]),
            _ => {
                self.incon(st, format!("external function {}", name));
                Out::End
            }
        }
    }
}

/// Hash kinds with a 32-byte result.
fn is32(kind: u64) -> bool {
    kind == 0 || kind >= 8
}

fn sel(e: Ex, x: &Val, y: &Val) -> Val {
    match (x, y) {
        (Val::A(p), Val::A(q)) => Val::A(Rc::new(p.iter().zip(q.iter()).map(|(a, b)| sel(e, a, b)).collect())),
        _ => Val::of(ite(e, x.ex(), y.ex())),
    }
}
fn insert(v: &Val, idx: &[usize], x: Val) -> Val {
    match v {
        Val::A(f) => {
            let mut f = (**f).clone();
            if idx.len() == 1 {
                f[idx[0]] = x;
            } else {
                f[idx[0]] = insert(&f[idx[0]].clone(), &idx[1..], x);
            }
            Val::A(Rc::new(f))
        }
        _ => panic!("insertvalue"),
    }
}

/// (stride, remainder) such that every value of e is remainder + k*stride
fn stride_of(e: Ex) -> (u64, u64) {
    let n = node(e);
    match n.op {
        Op::Concat => {
            if let Some(k) = as_const(n.b) {
                let w = width(n.b);
                if w < 20 {
                    return (1 << w, k as u64);
                }
            }
            if as_const(n.a) == Some(0) {
                return stride_of(n.b);
            }
            let bn = node(n.b);
            if bn.op == Op::Concat {
                if let Some(k) = as_const(bn.b) {
                    let w = width(bn.b);
                    if w < 20 {
                        return (1 << w, k as u64);
                    }
                }
            }
            (1, 0)
        }
        Op::Add => {
            let (s, r) = stride_of(n.a);
            if let Some(k) = as_const(n.b) {
                return (s, (r as u128).wrapping_add(k) as u64 % s);
            }
            let (s2, r2) = stride_of(n.b);
            let g = gcd(s, s2);
            (g, (r.wrapping_add(r2)) % g)
        }
        Op::Mul => {
            if let Some(k) = as_const(n.b) {
                let k = k as u64;
                // no wrap-around for narrow indices
                if sig_bits(n.a) + (64 - k.leading_zeros()) <= 64 && k > 0 && k < 1 << 20 {
                    return (k, 0);
                }
                let t = k.trailing_zeros();
                return (1 << t.min(12), 0);
            }
            (1, 0)
        }
        _ => (1, 0),
    }
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn mux(off: Ex, offs: &[u64], vals: &[Ex]) -> Ex {
    if offs.len() == 1 || vals.iter().all(|v| *v == vals[0]) {
        return vals[0];
    }
    let m = offs.len() / 2;
    let l = mux(off, &offs[..m], &vals[..m]);
    let r = mux(off, &offs[m..], &vals[m..]);
    ite(ult(off, c(offs[m] as u128, 64)), l, r)
}

pub fn bytes_eq(x: &[Ex], y: &[Ex]) -> Ex {
    let mut r = tru();
    let mut i = 0;
    let n = x.len();
    while i < n {
        let k = (n - i).min(8);
        let (mut p, mut q) = (x[i], y[i]);
        for j in 1..k {
            p = concat(x[i + j], p);
            q = concat(y[i + j], q);
        }
        let e = eq(p, q);
        if as_const(e) == Some(0) {
            return e;
        }
        r = and(r, e);
        i += k;
    }
    r
}

fn ovf(op: i32, x: Ex, y: Ex, w: u32) -> (Option<Ex>, Option<Ex>) {
    match op {
        0 => {
            let r = add(x, y);
            // overflow iff r < x; with constant y: x > max - y
            let o = if let Some(k) = as_const(y) {
                ult(c(mask(w) - k, w), x)
            } else if let Some(k) = as_const(x) {
                ult(c(mask(w) - k, w), y)
            } else {
                ult(r, x)
            };
            (Some(r), Some(o))
        }
        1 => (Some(sub(x, y)), Some(ult(x, y))),
        2 => {
            let r = mul(x, y);
            if whole_multiple(x, y).is_some() {
                return (Some(r), Some(fals()));
            }
            if let (Some(a), Some(b)) = (as_const(x), as_const(y)) {
                let o = match a.checked_mul(b) {
                    Some(p) => p > mask(w),
                    None => true,
                };
                return (Some(r), Some(c(o as u128, 1)));
            }
            for (k, v) in [(as_const(x), y), (as_const(y), x)] {
                if let Some(k) = k {
                    if k == 0 {
                        return (Some(r), Some(fals()));
                    }
                    return (Some(r), Some(ult(c(mask(w) / k, w), v)));
                }
            }
            let (sa, sb) = (sig_bits(x), sig_bits(y));
            if sa + sb <= w {
                return (Some(r), Some(fals()));
            }
            if 2 * w <= 128 {
                let p = mul(zext(x, 2 * w), zext(y, 2 * w));
                let o = ne(extract(p, w, w), zero(w));
                return (Some(extract(p, 0, w)), Some(o));
            }
            // generic: x != 0 && r / x != y
            let o = and(ne(x, zero(w)), ne(mk_udiv(r, x), y));
            (Some(r), Some(o))
        }
        3 | 4 => {
            if w >= 128 {
                if let (Some(a), Some(b)) = (as_const(x), as_const(y)) {
                    let (a, b) = (a as i128, b as i128);
                    let (r, o) = if op == 3 { a.overflowing_add(b) } else { a.overflowing_sub(b) };
                    return (Some(c(r as u128, w)), Some(c(o as u128, 1)));
                }
            }
            let r = if op == 3 { add(x, y) } else { sub(x, y) };
            let (sa, sb, sr) = (extract(x, w - 1, 1), extract(y, w - 1, 1), extract(r, w - 1, 1));
            let o = if op == 3 {
                and(not(xor(sa, sb)), xor(sa, sr))
            } else {
                and(xor(sa, sb), xor(sa, sr))
            };
            (Some(r), Some(o))
        }
        _ => {
            if 2 * w <= 128 {
                let p = mul(sext(x, 2 * w), sext(y, 2 * w));
                let r = extract(p, 0, w);
                let o = ne(p, sext(r, 2 * w));
                (Some(r), Some(o))
            } else if let (Some(a), Some(b)) = (as_const(x), as_const(y)) {
                let (r, o) = (a as i128).overflowing_mul(b as i128);
                (Some(c(r as u128, w)), Some(c(o as u128, 1)))
            } else {
                (None, None)
            }
        }
    }
}
fn mk_udiv(a: Ex, b: Ex) -> Ex {
    udiv(a, b)
}

thread_local! {
    static SAT_SUMS: std::cell::RefCell<HashMap<Ex, Vec<Ex>>> = std::cell::RefCell::new(HashMap::new());
}

/// Unsigned saturating addition. It is associative and commutative, so a chain of it is rebuilt
/// from its sorted terms: the same terms in another order give the same expression.
fn sat_add(x: Ex, y: Ex) -> Ex {
    let w = width(x);
    let terms = |e: Ex| SAT_SUMS.with(|t| t.borrow().get(&e).cloned()).unwrap_or_else(|| vec![e]);
    let (mut k, mut ts) = (0u128, Vec::new());
    for t in terms(x).into_iter().chain(terms(y)) {
        match as_const(t) {
            Some(v) => k = k.saturating_add(v).min(mask(w)),
            None => ts.push(t),
        }
    }
    ts.sort();
    if k == mask(w) {
        return c(k, w);
    }
    if k != 0 {
        ts.push(c(k, w));
    }
    let mut it = ts.iter().copied();
    let mut r = match it.next() {
        Some(t) => t,
        None => return c(0, w),
    };
    for t in it {
        let s = add(r, t);
        r = ite(ult(s, t), c(mask(w), w), s);
    }
    if ts.len() > 1 && as_const(r).is_none() {
        SAT_SUMS.with(|m| m.borrow_mut().insert(r, ts));
    }
    r
}
