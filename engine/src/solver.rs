//! Z3 through its C API. Queries are sliced to the constraints that share
//! variables (transitively) with the query, and cached.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_camel_case_types)]
type u32_ = c_uint;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_bv_sort(c: P, w: u32_) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, sym: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, signed: bool) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32_, lo: u32_, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: u32_, a: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: u32_, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32_, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, sym: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32_);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

pub type Model = HashMap<u32, u128>;

#[derive(Clone)]
pub enum Res {
    Sat(std::rc::Rc<Model>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub fallback: u64,
    pub restricted: u64,
    pub abstracted: u64,
    pub small: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    c: P,
    bv: HashMap<Ex, P>,
    bo: HashMap<Ex, P>,
    cache: HashMap<Vec<Ex>, Res>,
    /// translating products, quotients and remainders to unknowns
    abstracting: bool,
    other_bv: HashMap<Ex, P>,
    other_bo: HashMap<Ex, P>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub fallback_ms: u32,
    pub trace: bool,
    trace_min: f64,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Solver {
    pub fn new(timeout_ms: u32, fallback_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (cs("model"), cs("true"));
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Solver {
                c,
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                abstracting: false,
                other_bv: HashMap::new(),
                other_bo: HashMap::new(),
                stats: Stats::default(),
                timeout_ms,
                fallback_ms,
                trace: std::env::var("IRSX_TRACE_Q").is_ok(),
                trace_min: std::env::var("IRSX_TRACE_Q").ok().and_then(|x| x.parse().ok()).unwrap_or(0.5),
            }
        }
    }

    fn tr_bool(&mut self, e: Ex) -> P {
        self.tr(e, true)
    }

    /// iterative translation
    fn tr(&mut self, root: Ex, root_bool: bool) -> P {
        let c = self.c;
        let mut st: Vec<(Ex, bool)> = vec![(root, root_bool)];
        while let Some(&(e, want_bool)) = st.last() {
            let done = if want_bool { self.bo.contains_key(&e) } else { self.bv.contains_key(&e) };
            if done {
                st.pop();
                continue;
            }
            let n = node(e);
            unsafe {
                if want_bool {
                    debug_assert!(n.w == 1);
                    let r: Option<P> = match n.op {
                        Op::Const => Some(if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }),
                        Op::Var => {
                            let s = cs(&format!("v{}", n.k));
                            Some(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bool_sort(c)))
                        }
                        Op::Eq if !self.abstracting && mul_no_overflow(e).is_some() => {
                            let (x, y) = mul_no_overflow(e).unwrap();
                            match (self.get(x, false), self.get(y, false)) {
                                (Some(a), Some(b)) => Some(Z3_mk_bvmul_no_overflow(c, a, b, false)),
                                (p, q) => {
                                    if p.is_none() {
                                        st.push((x, false));
                                    }
                                    if q.is_none() {
                                        st.push((y, false));
                                    }
                                    None
                                }
                            }
                        }
                        Op::Eq | Op::Ult | Op::Slt => {
                            let wb = width(n.a) == 1;
                            match (self.get(n.a, wb), self.get(n.b, wb)) {
                                (Some(a), Some(b)) => Some(match n.op {
                                    Op::Eq => Z3_mk_eq(c, a, b),
                                    Op::Ult => Z3_mk_bvult(c, a, b),
                                    _ => Z3_mk_bvslt(c, a, b),
                                }),
                                (x, y) => {
                                    if x.is_none() {
                                        st.push((n.a, wb));
                                    }
                                    if y.is_none() {
                                        st.push((n.b, wb));
                                    }
                                    None
                                }
                            }
                        }
                        Op::And | Op::Or | Op::Xor => match (self.get(n.a, true), self.get(n.b, true)) {
                            (Some(a), Some(b)) => {
                                let args = [a, b];
                                Some(match n.op {
                                    Op::And => Z3_mk_and(c, 2, args.as_ptr()),
                                    Op::Or => Z3_mk_or(c, 2, args.as_ptr()),
                                    _ => {
                                        if as_const(n.b) == Some(1) {
                                            Z3_mk_not(c, a)
                                        } else {
                                            Z3_mk_xor(c, a, b)
                                        }
                                    }
                                })
                            }
                            (x, y) => {
                                if x.is_none() {
                                    st.push((n.a, true));
                                }
                                if y.is_none() {
                                    st.push((n.b, true));
                                }
                                None
                            }
                        },
                        Op::Ite => match (self.get(n.a, true), self.get(n.b, true), self.get(n.c, true)) {
                            (Some(a), Some(b), Some(d)) => Some(Z3_mk_ite(c, a, b, d)),
                            (x, y, z) => {
                                if x.is_none() {
                                    st.push((n.a, true));
                                }
                                if y.is_none() {
                                    st.push((n.b, true));
                                }
                                if z.is_none() {
                                    st.push((n.c, true));
                                }
                                None
                            }
                        },
                        _ => match self.get(e, false) {
                            Some(a) => {
                                let one = self.num(1, 1);
                                Some(Z3_mk_eq(c, a, one))
                            }
                            None => {
                                st.push((e, false));
                                None
                            }
                        },
                    };
                    if let Some(r) = r {
                        self.bo.insert(e, r);
                        st.pop();
                    }
                } else {
                    let r: Option<P> = match n.op {
                        Op::Const => Some(self.num(n.k, n.w)),
                        _ if n.w == 1 && matches!(n.op, Op::Var | Op::Eq | Op::Ult | Op::Slt | Op::And | Op::Or | Op::Xor | Op::Ite) => {
                            match self.get(e, true) {
                                Some(b) => {
                                    let (x, y) = (self.num(1, 1), self.num(0, 1));
                                    Some(Z3_mk_ite(c, b, x, y))
                                }
                                None => {
                                    st.push((e, true));
                                    None
                                }
                            }
                        }
                        Op::Var => {
                            let s = cs(&format!("v{}", n.k));
                            Some(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w)))
                        }
                        _ if self.abstracting && hard(e) => {
                            let s = cs(&format!("hard{}", e));
                            Some(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w)))
                        }
                        Op::Extract | Op::SExt => match self.get(n.a, false) {
                            Some(a) => Some(if n.op == Op::Extract {
                                Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a)
                            } else {
                                Z3_mk_sign_ext(c, n.w - width(n.a), a)
                            }),
                            None => {
                                st.push((n.a, false));
                                None
                            }
                        },
                        Op::Ite => match (self.get(n.a, true), self.get(n.b, false), self.get(n.c, false)) {
                            (Some(a), Some(b), Some(d)) => Some(Z3_mk_ite(c, a, b, d)),
                            (x, y, z) => {
                                if x.is_none() {
                                    st.push((n.a, true));
                                }
                                if y.is_none() {
                                    st.push((n.b, false));
                                }
                                if z.is_none() {
                                    st.push((n.c, false));
                                }
                                None
                            }
                        },
                        _ => match (self.get(n.a, false), self.get(n.b, false)) {
                            (Some(a), Some(b)) => Some(match n.op {
                                Op::Add => Z3_mk_bvadd(c, a, b),
                                Op::Mul => Z3_mk_bvmul(c, a, b),
                                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                                Op::URem => Z3_mk_bvurem(c, a, b),
                                Op::SRem => Z3_mk_bvsrem(c, a, b),
                                Op::And => Z3_mk_bvand(c, a, b),
                                Op::Or => Z3_mk_bvor(c, a, b),
                                Op::Xor => {
                                    let m = node(n.b);
                                    if m.op == Op::Const && m.k == mask(m.w) {
                                        Z3_mk_bvnot(c, a)
                                    } else {
                                        Z3_mk_bvxor(c, a, b)
                                    }
                                }
                                Op::Shl => Z3_mk_bvshl(c, a, b),
                                Op::LShr => Z3_mk_bvlshr(c, a, b),
                                Op::AShr => Z3_mk_bvashr(c, a, b),
                                Op::Concat => Z3_mk_concat(c, a, b),
                                o => panic!("tr {:?}", o),
                            }),
                            (x, y) => {
                                if x.is_none() {
                                    st.push((n.a, false));
                                }
                                if y.is_none() {
                                    st.push((n.b, false));
                                }
                                None
                            }
                        },
                    };
                    if let Some(r) = r {
                        self.bv.insert(e, r);
                        st.pop();
                    }
                }
            }
        }
        if root_bool {
            self.bo[&root]
        } else {
            self.bv[&root]
        }
    }
    fn get(&self, e: Ex, b: bool) -> Option<P> {
        if b {
            self.bo.get(&e).copied()
        } else {
            self.bv.get(&e).copied()
        }
    }
    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let s = cs(&k.to_string());
            Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
        }
    }

    /// constraints of pc relevant to cond
    fn slice(pc: &[Ex], cond: Ex) -> Vec<Ex> {
        let mut vs: HashSet<u32> = vars(cond).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = Vec::new();
        loop {
            let mut changed = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = vars(p);
                if pv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    changed = true;
                    out.push(p);
                    vs.extend(pv.iter());
                }
            }
            if !changed {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Is pc && cond satisfiable? The model covers the variables of the slice only.
    pub fn check(&mut self, pc: &[Ex], cond: Ex) -> Res {
        if let Some(k) = as_const(cond) {
            if k == 0 {
                return Res::Unsat;
            }
            return Res::Sat(Default::default());
        }
        let sl = Self::slice(pc, cond);
        let mut all = sl.clone();
        all.push(cond);
        all.sort();
        all.dedup();
        let key = (all, cond);
        if let Some(r) = self.cache.get(&key.0) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut r = match Self::small_domain(&key.0) {
            Some(r) => {
                self.stats.small += 1;
                r
            }
            None => {
                // a short try; then for a model among small and almost largest numbers; then in full
                let short = self.timeout_ms.min(2000);
                let mut r = self.z3_check(&sl, cond, short, 0);
                if matches!(r, Res::Unknown) && self.abstract_unsat(&sl, cond, short) {
                    self.stats.abstracted += 1;
                    r = Res::Unsat;
                }
                for k in [4, 10] {
                    if matches!(r, Res::Unknown) {
                        self.stats.restricted += 1;
                        let q = self.z3_check(&sl, cond, short, k);
                        if matches!(q, Res::Sat(_)) {
                            r = q;
                        }
                    }
                }
                if matches!(r, Res::Unknown) && self.timeout_ms > short {
                    r = self.z3_check(&sl, cond, self.timeout_ms, 0);
                }
                r
            }
        };
        if let Res::Unknown = r {
            if self.fallback_ms > 0 {
                self.stats.fallback += 1;
                r = self.external(&sl, cond);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        if self.trace && dt > self.trace_min {
            eprintln!("[slow query {:.2}s, {} constraints] {}", dt, sl.len(), show(cond, 6));
        }
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(key.0, r.clone());
        r
    }

    /// Decides conjunctions over one variable with few possible values (a byte, or a bounded number) by trying them all.
    fn small_domain(all: &[Ex]) -> Option<Res> {
        let v0 = vars(all[0]);
        if v0.len() != 1 || all.iter().any(|e| { let v = vars(*e); v.len() != 1 || v[0] != v0[0] }) {
            return None;
        }
        let v = v0[0];
        let w = cx().var_w[v as usize];
        // lo <= v - base < size
        let mut dom: Option<(u128, u128)> = if w <= 8 { Some((0, 1 << w)) } else { None };
        let is_var = |e: Ex| { let n = node(e); n.op == Op::Var && n.k as u32 == v };
        for &e in all {
            let n = node(e);
            let cand = match n.op {
                Op::Ult => match as_const(n.b) {
                    Some(k) if is_var(n.a) => Some((0, k)),
                    Some(k) => {
                        let a = node(n.a);
                        if a.op == Op::Add && is_var(a.a) && as_const(a.b).is_some() {
                            Some((0u128.wrapping_sub(as_const(a.b).unwrap()) & mask(w), k))
                        } else if a.op == Op::Add && is_var(a.b) && as_const(a.a).is_some() {
                            Some((0u128.wrapping_sub(as_const(a.a).unwrap()) & mask(w), k))
                        } else {
                            None
                        }
                    }
                    None => None,
                },
                Op::Eq => match (as_const(n.a), as_const(n.b)) {
                    (Some(k), _) if is_var(n.b) => Some((k, 1)),
                    (_, Some(k)) if is_var(n.a) => Some((k, 1)),
                    _ => None,
                },
                // not (k < v)
                Op::Xor if as_const(n.b) == Some(1) || as_const(n.a) == Some(1) => {
                    let x = node(if as_const(n.b) == Some(1) { n.a } else { n.b });
                    match (x.op, as_const(x.a)) {
                        (Op::Ult, Some(k)) if is_var(x.b) && k < mask(w) => Some((0, k + 1)),
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some(c) = cand {
                if dom.map_or(true, |d| c.1 < d.1) {
                    dom = Some(c);
                }
            }
        }
        let (base, size) = dom?;
        if size > 256 {
            return None;
        }
        // only where evaluating is cheap
        let mut seen: HashSet<Ex> = HashSet::new();
        let mut st: Vec<Ex> = all.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            if seen.len() > 400 || seen.len() as u128 * size > 12_000 {
                return None;
            }
            let n = node(e);
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract | Op::SExt => st.push(n.a),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                _ => st.extend([n.a, n.b]),
            }
            if n.w > 128 {
                return None;
            }
        }
        for i in 0..size {
            let mut m = Model::new();
            m.insert(v, base.wrapping_add(i) & mask(w));
            let good = {
                let mut ev = Eval::new(&m);
                all.iter().all(|e| ev.eval(*e) == 1)
            };
            if good {
                return Some(Res::Sat(std::rc::Rc::new(m)));
            }
        }
        Some(Res::Unsat)
    }

    /// Is the query unsatisfiable whatever the values of its products, quotients and remainders
    /// (but for what bounds say about them)?
    fn abstract_unsat(&mut self, sl: &[Ex], cond: Ex, timeout: u32) -> bool {
        let mut seen: HashSet<Ex> = HashSet::new();
        let mut st: Vec<Ex> = sl.to_vec();
        st.push(cond);
        let mut found = Vec::new();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = node(e);
            if hard(e) {
                found.push(e);
            }
            match n.op {
                Op::Const | Op::Var => {}
                Op::Extract | Op::SExt => st.push(n.a),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                _ => st.extend([n.a, n.b]),
            }
        }
        if found.is_empty() {
            return false;
        }
        std::mem::swap(&mut self.bv, &mut self.other_bv);
        std::mem::swap(&mut self.bo, &mut self.other_bo);
        self.abstracting = true;
        let mut facts = Vec::new();
        let c = self.c;
        for e in found {
            let n = node(e);
            let (x, a, b) = (self.tr(e, false), self.tr(n.a, false), self.tr(n.b, false));
            unsafe {
                let le = |p: P, q: P| Z3_mk_not(c, Z3_mk_bvult(c, q, p));
                let zero = Z3_mk_eq(c, b, self.num(0, n.w));
                if n.op == Op::UDiv {
                    let args = [zero, le(x, a)];
                    facts.push(Z3_mk_or(c, 2, args.as_ptr()));
                } else if n.op == Op::URem {
                    facts.push(le(x, a));
                    let args = [zero, Z3_mk_bvult(c, x, b)];
                    facts.push(Z3_mk_or(c, 2, args.as_ptr()));
                }
            }
        }
        let r = unsafe {
            let logic = cs("QF_BV");
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = cs("timeout");
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for &e in sl.iter().chain(std::iter::once(&cond)) {
                let a = self.tr_bool(e);
                Z3_solver_assert(c, s, a);
            }
            for f in facts {
                Z3_solver_assert(c, s, f);
            }
            let r = Z3_solver_check(c, s);
            Z3_solver_dec_ref(c, s);
            r
        };
        self.abstracting = false;
        std::mem::swap(&mut self.bv, &mut self.other_bv);
        std::mem::swap(&mut self.bo, &mut self.other_bo);
        r == -1
    }

    /// With `bits` only for numbers that are the sign extension of so many bits (a model is a model; no model means nothing).
    fn z3_check(&mut self, sl: &[Ex], cond: Ex, timeout: u32, bits: u32) -> Res {
        unsafe {
            let logic = cs("QF_BV");
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, logic.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = cs("timeout");
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), timeout);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
            for &e in sl.iter().chain(std::iter::once(&cond)) {
                let a = self.tr_bool(e);
                Z3_solver_assert(self.c, s, a);
            }
            if bits > 0 {
                let mut vs: HashSet<u32> = vars(cond).iter().copied().collect();
                for &e in sl {
                    vs.extend(vars(e).iter());
                }
                for v in vs {
                    let w = cx().var_w[v as usize];
                    if w > bits {
                        let mk = |n: String, w: u32| {
                            let nm = cs(&n);
                            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bv_sort(self.c, w))
                        };
                        let x = Z3_mk_sign_ext(self.c, w - bits, mk(format!("small{}_{}", bits, v), bits));
                        Z3_solver_assert(self.c, s, Z3_mk_eq(self.c, mk(format!("v{}", v), w), x));
                    }
                }
            }
            let r = Z3_solver_check(self.c, s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut model = Model::new();
                    let mut vs: HashSet<u32> = vars(cond).iter().copied().collect();
                    for &e in sl {
                        vs.extend(vars(e).iter());
                    }
                    for v in vs {
                        let w = cx().var_w[v as usize];
                        let nm = cs(&format!("v{}", v));
                        let sym = Z3_mk_string_symbol(self.c, nm.as_ptr());
                        let srt = if w == 1 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w) };
                        let mut k = Z3_mk_const(self.c, sym, srt);
                        if w == 1 {
                            let (x, y) = (self.num(1, 1), self.num(0, 1));
                            k = Z3_mk_ite(self.c, k, x, y);
                        }
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, k, true, &mut out) {
                            let st = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_string_lossy().to_string();
                            model.insert(v, st.parse::<u128>().expect("numeral"));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(std::rc::Rc::new(model))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            res
        }
    }

    /// Portfolio of external solvers on the SMT-LIB text of a hard query.
    fn external(&mut self, sl: &[Ex], cond: Ex) -> Res {
        let text = unsafe {
            let logic = cs("QF_BV");
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, logic.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            for &e in sl.iter().chain(std::iter::once(&cond)) {
                let a = self.tr_bool(e);
                Z3_solver_assert(self.c, s, a);
            }
            let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
            Z3_solver_dec_ref(self.c, s);
            t
        };
        let mut vs: Vec<u32> = vars(cond).iter().copied().collect();
        for &e in sl {
            vs.extend(vars(e).iter());
        }
        vs.sort();
        vs.dedup();
        let mut q = String::from("(set-option :produce-models true)\n(set-logic QF_BV)\n");
        if text.contains("bvumul_noovfl") {
            // z3's name for the predicate; as a product of twice the width for the others
            q.push_str("(define-fun umul_ok ((x (_ BitVec 64)) (y (_ BitVec 64))) Bool (not (bvumulo x y)))\n");
        }
        for line in text.replace("bvumul_noovfl", "umul_ok").lines() {
            q.push_str(line);
            q.push('\n');
        }
        q.push_str("(check-sat)\n");
        if !vs.is_empty() {
            q.push_str("(get-value (");
            for v in &vs {
                q.push_str(&format!("v{} ", v));
            }
            q.push_str("))\n");
        }
        let dir = std::env::temp_dir();
        let path = dir.join(format!("irsx-q-{}.smt2", std::process::id()));
        if std::fs::write(&path, &q).is_err() {
            return Res::Unknown;
        }
        let tl = format!("--tlimit={}", self.fallback_ms);
        let ts = format!("-T:{}", self.fallback_ms / 1000 + 1);
        let pstr = path.to_string_lossy().to_string();
        let cmds: Vec<(&str, Vec<&str>)> = vec![
            ("cvc5", vec![&tl, "--bitblast=eager", &pstr]),
            ("cvc5", vec![&tl, "--solve-bv-as-int=sum", &pstr]),
            ("z3-new", vec![&ts, &pstr]),
        ];
        let mut kids = Vec::new();
        for (b, a) in &cmds {
            if let Ok(k) = std::process::Command::new(b)
                .args(a)
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
            {
                kids.push(Some(k));
            }
        }
        let deadline = Instant::now() + std::time::Duration::from_millis(self.fallback_ms as u64 + 2000);
        let mut res = Res::Unknown;
        'w: while Instant::now() < deadline && kids.iter().any(|k| k.is_some()) {
            for slot in kids.iter_mut() {
                if let Some(k) = slot {
                    if let Ok(Some(_)) = k.try_wait() {
                        let mut k = slot.take().unwrap();
                        let mut out = String::new();
                        use std::io::Read;
                        k.stdout.take().unwrap().read_to_string(&mut out).ok();
                        let first = out.lines().next().unwrap_or("").trim().to_string();
                        if first == "unsat" {
                            res = Res::Unsat;
                            break 'w;
                        }
                        if first == "sat" {
                            if let Some(m) = parse_values(&out[first.len()..]) {
                                res = Res::Sat(std::rc::Rc::new(m));
                                break 'w;
                            }
                        }
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        for k in kids.iter_mut().flatten() {
            k.kill().ok();
            k.wait().ok();
        }
        std::fs::remove_file(&path).ok();
        res
    }
}

/// A product of two unknowns, a quotient or a remainder.
fn hard(e: Ex) -> bool {
    let n = node(e);
    match n.op {
        Op::Mul => as_const(n.a).is_none() && as_const(n.b).is_none(),
        Op::UDiv | Op::URem | Op::SDiv | Op::SRem => true,
        _ => false,
    }
}

fn parse_values(s: &str) -> Option<Model> {
    // ((v0 #x..) (v1 #b..) (v2 true) (v3 (_ bv12 64)))
    let toks: Vec<String> = s.replace('(', " ").replace(')', " ").split_whitespace().map(|x| x.to_string()).collect();
    let mut m = Model::new();
    let mut i = 0;
    while i < toks.len() {
        let t = &toks[i];
        if t.starts_with('v') && i + 1 < toks.len() {
            let id: u32 = t[1..].parse().ok()?;
            let v = &toks[i + 1];
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()?
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()?
            } else if v == "true" {
                1
            } else if v == "false" {
                0
            } else if v == "_" {
                toks.get(i + 2)?.strip_prefix("bv")?.parse().ok()?
            } else {
                return None;
            };
            m.insert(id, val);
        }
        i += 1;
    }
    Some(m)
}
