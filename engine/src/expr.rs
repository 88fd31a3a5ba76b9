//! Hash-consed bit-vector expressions with normalising constructors.
//! Widths are 1..=128 for constants; composite nodes may be wider.
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ex>,
    pub var_names: Vec<String>,
    pub var_w: Vec<u32>,
    vars_cache: HashMap<Ex, std::rc::Rc<Vec<u32>>>,
}

struct Holder(std::cell::UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Holder {}
static CTX: Holder = Holder(std::cell::UnsafeCell::new(None));

/// The engine is single threaded; one global context.
pub fn cx() -> &'static mut Ctx {
    unsafe {
        let r = &mut *CTX.0.get();
        if r.is_none() {
            *r = Some(Ctx {
                nodes: Vec::new(),
                map: HashMap::new(),
                var_names: Vec::new(),
                var_w: Vec::new(),
                vars_cache: HashMap::new(),
            });
        }
        r.as_mut().unwrap()
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn mk(op: Op, w: u32, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
    let n = Node { op, w, a, b, c, k };
    let x = cx();
    if let Some(&e) = x.map.get(&n) {
        return e;
    }
    let e = x.nodes.len() as Ex;
    x.nodes.push(n);
    x.map.insert(n, e);
    e
}

#[inline]
pub fn node(e: Ex) -> Node {
    cx().nodes[e as usize]
}
#[inline]
pub fn width(e: Ex) -> u32 {
    cx().nodes[e as usize].w
}
#[inline]
pub fn as_const(e: Ex) -> Option<u128> {
    let n = &cx().nodes[e as usize];
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
pub fn c(v: u128, w: u32) -> Ex {
    assert!(w <= 128, "constant wider than 128 bits");
    mk(Op::Const, w, 0, 0, 0, v & mask(w))
}
pub fn zero(w: u32) -> Ex {
    if w <= 128 {
        c(0, w)
    } else {
        concat(zero(w - 128), c(0, 128))
    }
}
pub fn tru() -> Ex {
    c(1, 1)
}
pub fn fals() -> Ex {
    c(0, 1)
}
/// The expression of an existing variable.
pub fn var_ex(id: u32) -> Ex {
    let w = cx().var_w[id as usize];
    mk(Op::Var, w, 0, 0, 0, id as u128)
}
pub fn var(name: &str, w: u32) -> Ex {
    let x = cx();
    let id = x.var_names.len();
    x.var_names.push(name.to_string());
    x.var_w.push(w);
    mk(Op::Var, w, 0, 0, 0, id as u128)
}

fn is_zero(e: Ex) -> bool {
    as_const(e) == Some(0)
}
fn is_ones(e: Ex) -> bool {
    let n = node(e);
    n.op == Op::Const && n.k == mask(n.w)
}

pub fn not(a: Ex) -> Ex {
    let w = width(a);
    xor(a, if w <= 128 { c(mask(w), w) } else { panic!("wide not") })
}
pub fn neg(a: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = as_const(a) {
        return c(k.wrapping_neg(), w);
    }
    add(not(a), c(1, w))
}

pub fn add(a: Ex, b: Ex) -> Ex {
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return c(x.wrapping_add(y), w),
        (_, Some(0)) => return a,
        (None, Some(y)) => {
            let n = node(a);
            if n.op == Op::Add {
                if let Some(z) = as_const(n.b) {
                    return add(n.a, c(y.wrapping_add(z), w));
                }
            }
            if n.op == Op::Ite {
                if as_const(n.b).is_some() && as_const(n.c).is_some() {
                    return ite(n.a, add(n.b, b), add(n.c, b));
                }
            }
        }
        (None, None) => {
            // x + (not x + 1) patterns are produced by sub(); cancel x - x at sub level
            let n = node(a);
            if n.op == Op::Add && as_const(n.b).is_some() {
                return add(add(n.a, b), n.b);
            }
            let m = node(b);
            if m.op == Op::Add && as_const(m.b).is_some() {
                return add(add(a, m.a), m.b);
            }
            // x + ~x == -1
            if is_not_of(a, b) {
                return c(mask(w), w);
            }
            // (x + y) + ~x  == y - 1
            let n = node(a);
            if n.op == Op::Add {
                if is_not_of(n.a, b) {
                    return add(n.b, c(mask(w), w));
                }
                if is_not_of(n.b, b) {
                    return add(n.a, c(mask(w), w));
                }
            }
            let m = node(b);
            if m.op == Op::Add {
                if is_not_of(m.a, a) {
                    return add(m.b, c(mask(w), w));
                }
                if is_not_of(m.b, a) {
                    return add(m.a, c(mask(w), w));
                }
            }
        }
        _ => {}
    }
    mk(Op::Add, w, a, b, 0, 0)
}
fn is_not_of(a: Ex, b: Ex) -> bool {
    let n = node(a);
    if n.op == Op::Xor && n.a == b && is_ones(n.b) {
        return true;
    }
    let m = node(b);
    m.op == Op::Xor && m.a == a && is_ones(m.b)
}
pub fn sub(a: Ex, b: Ex) -> Ex {
    if a == b {
        return zero(width(a));
    }
    if is_zero(b) {
        return a;
    }
    // x - (x - r) is r
    if let Some((x, r)) = as_sub(b) {
        if x == a {
            return r;
        }
    }
    add(a, neg(b))
}
pub fn mul(a: Ex, b: Ex) -> Ex {
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return c(x.wrapping_mul(y), w),
        (_, Some(0)) => return b,
        (_, Some(1)) => return a,
        (_, Some(y)) if y.is_power_of_two() => return shl(a, c(y.trailing_zeros() as u128, w)),
        _ => {}
    }
    if let Some(r) = whole_multiple(a, b) {
        return r;
    }
    mk(Op::Mul, w, a, b, 0, 0)
}
/// (x / y) * y is x - x % y (also for y = 0, where x / y is all ones and x % y is x), and cannot overflow.
pub fn whole_multiple(a: Ex, b: Ex) -> Option<Ex> {
    let w = width(a);
    for (q, y) in [(a, b), (b, a)] {
        let n = node(q);
        if n.op == Op::UDiv && n.b == y {
            return Some(sub(n.a, urem(n.a, y)));
        }
        // the same, with the quotient computed at a smaller width
        if n.op == Op::Concat && is_zero(n.a) {
            let m = node(n.b);
            if m.op == Op::UDiv && zext(m.b, w) == y {
                let (x, y) = (zext(m.a, w), y);
                return Some(sub(x, urem(x, y)));
            }
        }
    }
    None
}
/// x - r, written as sub() builds it: the pair (x, r).
fn as_sub(e: Ex) -> Option<(Ex, Ex)> {
    let n = node(e);
    if n.op != Op::Add || as_const(n.b) != Some(1) {
        return None;
    }
    let m = node(n.a);
    if m.op != Op::Add {
        return None;
    }
    for (x, v) in [(m.a, m.b), (m.b, m.a)] {
        let k = node(v);
        if k.op == Op::Xor && is_ones(k.b) {
            return Some((x, k.a));
        }
    }
    None
}
pub fn udiv(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) if y != 0 => return c(x / y, w),
        (_, Some(1)) => return a,
        (_, Some(y)) if y.is_power_of_two() => return lshr(a, c(y.trailing_zeros() as u128, w)),
        _ => {}
    }
    // narrow: both operands zero-extended
    if let Some((n, a2, b2)) = narrow2(a, b) {
        if n < w && as_const(b).map_or(true, |v| v != 0) {
            if as_const(b).is_some() {
                return zext(udiv(a2, b2), w);
            }
        }
    }
    mk(Op::UDiv, w, a, b, 0, 0)
}
pub fn urem(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) if y != 0 => return c(x % y, w),
        (_, Some(1)) => return c(0, w),
        (_, Some(y)) if y.is_power_of_two() => return and(a, c(y - 1, w)),
        _ => {}
    }
    if let Some((n, a2, b2)) = narrow2(a, b) {
        if n < w && as_const(b).map_or(false, |v| v != 0) {
            return zext(urem(a2, b2), w);
        }
    }
    mk(Op::URem, w, a, b, 0, 0)
}
/// number of significant low bits (upper bits known zero)
pub fn sig_bits(e: Ex) -> u32 {
    let n = node(e);
    match n.op {
        Op::Const => 128 - n.k.leading_zeros(),
        Op::Concat => {
            if is_zero(n.a) {
                sig_bits(n.b)
            } else {
                width(n.b) + sig_bits(n.a)
            }
        }
        Op::Ite => sig_bits(n.b).max(sig_bits(n.c)),
        _ => n.w,
    }
}
fn narrow2(a: Ex, b: Ex) -> Option<(u32, Ex, Ex)> {
    let n = sig_bits(a).max(sig_bits(b)).max(1);
    Some((n, extract(a, 0, n), extract(b, 0, n)))
}
pub fn sdiv(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if y != 0 {
            return c(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
        }
    }
    if sig_bits(a) < w && sig_bits(b) < w {
        return udiv(a, b);
    }
    mk(Op::SDiv, w, a, b, 0, 0)
}
pub fn srem(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if y != 0 {
            return c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
        }
    }
    if sig_bits(a) < w && sig_bits(b) < w {
        return urem(a, b);
    }
    mk(Op::SRem, w, a, b, 0, 0)
}

/// low-to-high list of concat segments
fn segs(e: Ex, out: &mut Vec<Ex>) {
    let n = node(e);
    if n.op == Op::Concat {
        segs(n.b, out);
        segs(n.a, out);
    } else {
        out.push(e);
    }
}
fn runs(k: u128, w: u32) -> Vec<(u32, u32, bool)> {
    let mut v = Vec::new();
    let mut lo = 0;
    while lo < w {
        let bit = (k >> lo) & 1 == 1;
        let mut hi = lo + 1;
        while hi < w && ((k >> hi) & 1 == 1) == bit {
            hi += 1;
        }
        v.push((lo, hi, bit));
        lo = hi;
    }
    v
}
/// try to split a bitwise op into independent segments
fn split_bitwise(op: Op, a: Ex, b: Ex) -> Option<Ex> {
    let w = width(a);
    let mut bounds: Vec<u32> = vec![0];
    let mut any = false;
    for e in [a, b] {
        let n = node(e);
        if n.op == Op::Concat {
            any = true;
            let mut s = Vec::new();
            segs(e, &mut s);
            let mut p = 0;
            for x in s {
                p += width(x);
                bounds.push(p);
            }
        }
    }
    if let Some(k) = as_const(b) {
        if op == Op::And {
            let r = runs(k, w);
            if r.len() <= 5 {
                any = true;
                for (_, hi, _) in r {
                    bounds.push(hi);
                }
            }
        }
    }
    if !any {
        return None;
    }
    bounds.push(w);
    bounds.sort();
    bounds.dedup();
    let mut parts: Vec<Ex> = Vec::new();
    let mut useful = false;
    for i in 0..bounds.len() - 1 {
        let (lo, hi) = (bounds[i], bounds[i + 1]);
        let x = extract(a, lo, hi - lo);
        let y = extract(b, lo, hi - lo);
        if as_const(x).is_some() || as_const(y).is_some() {
            let cst = as_const(x).map(|k| (k, y)).or(as_const(y).map(|k| (k, x))).unwrap();
            if cst.0 == 0 || cst.0 == mask(hi - lo) {
                useful = true;
            }
        }
        parts.push(match op {
            Op::And => and(x, y),
            Op::Or => or(x, y),
            _ => xor(x, y),
        });
    }
    if !useful {
        return None;
    }
    let mut r = parts[0];
    for p in &parts[1..] {
        r = concat(*p, r);
    }
    Some(r)
}

pub fn and(a: Ex, b: Ex) -> Ex {
    if a == b {
        return a;
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return c(x & y, w),
        (_, Some(0)) => return b,
        (_, Some(m)) if m == mask(w) => return a,
        _ => {}
    }
    if is_not_of(a, b) {
        return zero(w);
    }
    if w > 1 {
        if let Some(r) = split_bitwise(Op::And, a, b) {
            return r;
        }
    } else {
        let n = node(a);
        if n.op == Op::And && (n.a == b || n.b == b) {
            return a;
        }
        let m = node(b);
        if m.op == Op::And && (m.a == a || m.b == a) {
            return b;
        }
    }
    mk(Op::And, w, a, b, 0, 0)
}
pub fn or(a: Ex, b: Ex) -> Ex {
    if a == b {
        return a;
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return c(x | y, w),
        (_, Some(0)) => return a,
        (_, Some(m)) if m == mask(w) => return b,
        _ => {}
    }
    if is_not_of(a, b) {
        return c(mask(w), w);
    }
    if w > 1 {
        if let Some(r) = split_bitwise(Op::Or, a, b) {
            return r;
        }
    }
    mk(Op::Or, w, a, b, 0, 0)
}
pub fn xor(a: Ex, b: Ex) -> Ex {
    if a == b {
        return zero(width(a));
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return c(x ^ y, w),
        (_, Some(0)) => return a,
        (None, Some(y)) => {
            let n = node(a);
            if n.op == Op::Xor {
                if let Some(z) = as_const(n.b) {
                    return xor(n.a, c(y ^ z, w));
                }
            }
            if n.op == Op::Ite && as_const(n.b).is_some() && as_const(n.c).is_some() {
                return ite(n.a, xor(n.b, b), xor(n.c, b));
            }
        }
        _ => {}
    }
    if w > 1 {
        if let Some(r) = split_bitwise(Op::Xor, a, b) {
            return r;
        }
    }
    mk(Op::Xor, w, a, b, 0, 0)
}
pub fn shl(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(s) = as_const(b) {
        let s = s.min(w as u128) as u32;
        if s == 0 {
            return a;
        }
        if s >= w {
            return zero(w);
        }
        return concat(extract(a, 0, w - s), zero(s));
    }
    mk(Op::Shl, w, a, b, 0, 0)
}
pub fn lshr(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(s) = as_const(b) {
        let s = s.min(w as u128) as u32;
        if s == 0 {
            return a;
        }
        if s >= w {
            return zero(w);
        }
        return zext(extract(a, s, w - s), w);
    }
    mk(Op::LShr, w, a, b, 0, 0)
}
pub fn ashr(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(s) = as_const(b) {
        let s = s.min(w as u128 - 1) as u32;
        if s == 0 {
            return a;
        }
        if let Some(x) = as_const(a) {
            return c((sx(x, w) >> s) as u128, w);
        }
        return sext(extract(a, s, w - s), w);
    }
    mk(Op::AShr, w, a, b, 0, 0)
}
pub fn eq(a: Ex, b: Ex) -> Ex {
    if a == b {
        return tru();
    }
    let (a, b) = if as_const(a).is_some() || (as_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return c((x == y) as u128, 1);
    }
    if w == 1 {
        if let Some(k) = as_const(b) {
            return if k == 1 { a } else { not(a) };
        }
        return not(xor(a, b));
    }
    let n = node(a);
    let m = node(b);
    if n.op == Op::Concat || m.op == Op::Concat {
        // split at segment boundaries of whichever has them, if the other splits cheaply
        let (p, q) = if n.op == Op::Concat { (a, b) } else { (b, a) };
        let qn = node(q);
        let pn = node(p);
        if qn.op == Op::Const || qn.op == Op::Concat || true {
            let lw = width(pn.b);
            let hi = eq(pn.a, extract(q, lw, w - lw));
            if is_zero(hi) {
                return hi;
            }
            let lo = eq(pn.b, extract(q, 0, lw));
            return and(hi, lo);
        }
    }
    if let Some(y) = as_const(b) {
        match n.op {
            Op::Add => {
                if let Some(z) = as_const(n.b) {
                    return eq(n.a, c(y.wrapping_sub(z), w));
                }
                if y == 0 {
                    // a + (~b) + 1 == 0 handled below through Add const
                }
            }
            Op::Xor => {
                if let Some(z) = as_const(n.b) {
                    return eq(n.a, c(y ^ z, w));
                }
                if y == 0 {
                    return eq(n.a, n.b);
                }
            }
            Op::Ite => {
                let (x, z) = (as_const(n.b), as_const(n.c));
                if x.is_some() || z.is_some() {
                    return ite(n.a, eq(n.b, b), eq(n.c, b));
                }
            }
            Op::SExt => {
                let iw = width(n.a);
                let lo = extract(b, 0, iw);
                if as_const(sext(lo, w)) == Some(y) {
                    return eq(n.a, lo);
                }
                return fals();
            }
            Op::Or if y == 0 => {
                return and(eq(n.a, b), eq(n.b, b));
            }
            _ => {}
        }
    }
    // x + ~y == -1  <=> x == y
    if n.op == Op::Add && is_ones(b) {
        let p = node(n.b);
        if p.op == Op::Xor && is_ones(p.b) {
            return eq(n.a, p.a);
        }
        let p = node(n.a);
        if p.op == Op::Xor && is_ones(p.b) {
            return eq(n.b, p.a);
        }
    }
    mk(Op::Eq, 1, a, b, 0, 0)
}
pub fn ne(a: Ex, b: Ex) -> Ex {
    not(eq(a, b))
}
pub fn ult(a: Ex, b: Ex) -> Ex {
    if a == b {
        return fals();
    }
    // x - x % y does not exceed x, and x % y does not either
    if let Some((x, r)) = as_sub(b) {
        let n = node(r);
        if x == a && n.op == Op::URem && n.a == x {
            return fals();
        }
    }
    if node(b).op == Op::URem && node(b).a == a {
        return fals();
    }
    let w = width(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return c((x < y) as u128, 1),
        (_, Some(0)) => return fals(),
        (_, Some(1)) => return eq(a, zero(w)),
        (Some(0), _) => return ne(b, a),
        (Some(m), _) if m == mask(w) => return fals(),
        (_, Some(m)) if m == mask(w) => return ne(a, b),
        _ => {}
    }
    if w == 1 {
        return and(not(a), b);
    }
    let (sa, sb) = (sig_bits(a), sig_bits(b));
    let s = sa.max(sb).max(1);
    if s < w {
        if let Some(y) = as_const(b) {
            if y > mask(sa) {
                return tru();
            }
        }
        if let Some(x) = as_const(a) {
            if sb < 128 && x >= mask(sb) {
                return fals();
            }
        }
        return ult(extract(a, 0, s), extract(b, 0, s));
    }
    if let Some(y) = as_const(b) {
        if sa < 128 && y > mask(sa) {
            return tru();
        }
        let n = node(a);
        if n.op == Op::Ite && (as_const(n.b).is_some() && as_const(n.c).is_some()) {
            return ite(n.a, ult(n.b, b), ult(n.c, b));
        }
    }
    if as_const(a).is_some() {
        let n = node(b);
        if n.op == Op::Ite && (as_const(n.b).is_some() && as_const(n.c).is_some()) {
            return ite(n.a, ult(a, n.b), ult(a, n.c));
        }
    }
    mk(Op::Ult, 1, a, b, 0, 0)
}
pub fn ule(a: Ex, b: Ex) -> Ex {
    not(ult(b, a))
}
pub fn slt(a: Ex, b: Ex) -> Ex {
    if a == b {
        return fals();
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return c((sx(x, w) < sx(y, w)) as u128, 1);
    }
    if sig_bits(a) < w && sig_bits(b) < w {
        return ult(a, b);
    }
    if is_zero(b) {
        return extract(a, w - 1, 1);
    }
    if let Some(k) = as_const(a) {
        if k == mask(w) {
            return not(extract(b, w - 1, 1));
        }
    }
    mk(Op::Slt, 1, a, b, 0, 0)
}
pub fn sle(a: Ex, b: Ex) -> Ex {
    not(slt(b, a))
}
pub fn ite(cond: Ex, t: Ex, e: Ex) -> Ex {
    if let Some(k) = as_const(cond) {
        return if k == 1 { t } else { e };
    }
    if t == e {
        return t;
    }
    let cn = node(cond);
    if cn.op == Op::Xor && is_ones(cn.b) {
        return ite(cn.a, e, t);
    }
    let w = width(t);
    if w == 1 {
        match (as_const(t), as_const(e)) {
            (Some(1), Some(0)) => return cond,
            (Some(0), Some(1)) => return not(cond),
            (Some(1), _) => return or(cond, e),
            (Some(0), _) => return and(not(cond), e),
            (_, Some(0)) => return and(cond, t),
            (_, Some(1)) => return or(not(cond), t),
            _ => {}
        }
    }
    let tn = node(t);
    if tn.op == Op::Ite && tn.a == cond {
        return ite(cond, tn.b, e);
    }
    let en = node(e);
    if en.op == Op::Ite {
        if en.a == cond {
            return ite(cond, t, en.c);
        }
        if en.b == t {
            return ite(or(cond, en.a), t, en.c);
        }
    }
    // common zero prefix: push ite below the concat
    if w > 8 && (tn.op != Op::Const || en.op != Op::Const) {
        let s = sig_bits(t).max(sig_bits(e)).max(1);
        if s < w {
            return zext(ite(cond, extract(t, 0, s), extract(e, 0, s)), w);
        }
    }
    mk(Op::Ite, w, cond, t, e, 0)
}
pub fn concat(hi: Ex, lo: Ex) -> Ex {
    let (hn, ln) = (node(hi), node(lo));
    let w = hn.w + ln.w;
    if hn.op == Op::Const && ln.op == Op::Const && w <= 128 {
        return c((hn.k << ln.w) | ln.k, w);
    }
    if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + ln.w as u128 {
        return extract(hn.a, ln.k as u32, w);
    }
    // lo itself is the low part of hi's source
    if hn.op == Op::Extract && hn.a == lo && false {
        return lo;
    }
    // right-assoc normal form: concat(a, concat(b, c)); try merging a with b
    if ln.op == Op::Concat {
        let b = node(ln.a);
        let _ = b;
        if mergeable(hi, ln.a, 6) {
            return concat(concat(hi, ln.a), ln.b);
        }
    }
    if hn.op == Op::Concat {
        return concat(hn.a, concat(hn.b, lo));
    }
    if w <= 128 {
        if hn.op == Op::Ite && mergeable(hi, lo, 6) {
            return ite_raw(hn.a, concat(hn.b, ln.b), concat(hn.c, ln.c));
        }
        if hn.op == Op::Const && const_ite(&ln) {
            return ite_raw(ln.a, concat(hi, ln.b), concat(hi, ln.c));
        }
        if ln.op == Op::Const && const_ite(&hn) {
            return ite_raw(hn.a, concat(hn.b, lo), concat(hn.c, lo));
        }
    }
    mk(Op::Concat, w, hi, lo, 0, 0)
}
fn mergeable(hi: Ex, lo: Ex, depth: u32) -> bool {
    let (h, l) = (node(hi), node(lo));
    match (h.op, l.op) {
        (Op::Const, Op::Const) => h.w + l.w <= 128,
        (Op::Extract, Op::Extract) => h.a == l.a && h.k == l.k + l.w as u128,
        (Op::Ite, Op::Ite) => {
            depth > 0 && h.w + l.w <= 128 && h.a == l.a && mergeable(h.b, l.b, depth - 1) && mergeable(h.c, l.c, depth - 1)
        }
        _ => false,
    }
}
fn ite_raw(cond: Ex, t: Ex, e: Ex) -> Ex {
    if t == e {
        return t;
    }
    mk(Op::Ite, width(t), cond, t, e, 0)
}
fn const_ite(n: &Node) -> bool {
    n.op == Op::Ite && as_const(n.b).is_some() && as_const(n.c).is_some()
}
pub fn extract(e: Ex, lo: u32, w: u32) -> Ex {
    let n = node(e);
    if lo == 0 && w == n.w {
        return e;
    }
    debug_assert!(lo + w <= n.w);
    match n.op {
        Op::Const => return c(n.k >> lo, w),
        Op::Extract => return extract(n.a, lo + n.k as u32, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw {
                return extract(n.a, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(n.b, lo, w);
            }
            let l = extract(n.b, lo, lw - lo);
            let h = extract(n.a, 0, lo + w - lw);
            return concat(h, l);
        }
        Op::And => return and(extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Or => return or(extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Xor => return xor(extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Ite => {
            if as_const(n.b).is_some() || as_const(n.c).is_some() {
                return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
            }
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
            if lo == 0 {
                return sext(n.a, w);
            }
        }
        // the low half of a product of zero-extended numbers
        Op::Mul if lo == 0 && n.w > 64 && w <= 64 => {
            return mul(extract(n.a, 0, w), extract(n.b, 0, w));
        }
        Op::Add if lo == 0 && (as_const(n.b).is_some()) => {
            return add(extract(n.a, 0, w), extract(n.b, 0, w));
        }
        _ => {}
    }
    mk(Op::Extract, w, e, 0, 0, lo as u128)
}
pub fn zext(e: Ex, w: u32) -> Ex {
    let ew = width(e);
    if ew == w {
        return e;
    }
    concat(zero(w - ew), e)
}
pub fn sext(e: Ex, w: u32) -> Ex {
    let n = node(e);
    if n.w == w {
        return e;
    }
    if n.op == Op::Const {
        return c(sx(n.k, n.w) as u128, w);
    }
    if sig_bits(e) < n.w {
        return zext(e, w);
    }
    if n.op == Op::SExt {
        return sext(n.a, w);
    }
    if const_ite(&n) {
        return ite_raw(n.a, sext(n.b, w), sext(n.c, w));
    }
    mk(Op::SExt, w, e, 0, 0, 0)
}

/// sorted variable ids occurring in e
pub fn vars(e: Ex) -> std::rc::Rc<Vec<u32>> {
    if let Some(v) = cx().vars_cache.get(&e) {
        return v.clone();
    }
    let mut set: Vec<u32> = Vec::new();
    let mut seen: std::collections::HashSet<Ex> = Default::default();
    let mut st = vec![e];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        if x != e {
            if let Some(v) = cx().vars_cache.get(&x) {
                set.extend(v.iter());
                continue;
            }
        }
        let n = node(x);
        match n.op {
            Op::Const => {}
            Op::Var => set.push(n.k as u32),
            Op::Ite => {
                st.push(n.a);
                st.push(n.b);
                st.push(n.c);
            }
            Op::Extract | Op::SExt => st.push(n.a),
            _ => {
                st.push(n.a);
                st.push(n.b);
            }
        }
    }
    set.sort();
    set.dedup();
    let r = std::rc::Rc::new(set);
    cx().vars_cache.insert(e, r.clone());
    r
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                if sx(x, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx(x, w).wrapping_div(sx(y, w)) as u128
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                sx(x, w).wrapping_rem(sx(y, w)) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = y.min(w as u128 - 1) as u32;
            (sx(x, w) >> s) as u128
        }
        _ => unreachable!(),
    }) & m
}

/// Evaluate under a (partial) model; missing variables are zero.
pub struct Eval<'a> {
    pub model: &'a HashMap<u32, u128>,
    pub memo: HashMap<Ex, u128>,
}
impl<'a> Eval<'a> {
    pub fn new(model: &'a HashMap<u32, u128>) -> Self {
        Eval { model, memo: HashMap::new() }
    }
    pub fn eval(&mut self, e: Ex) -> u128 {
        // iterative post-order to avoid deep recursion
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = node(x);
            let get = |m: &HashMap<Ex, u128>, y: Ex| -> Option<u128> { m.get(&y).copied().or_else(|| as_const(y)) };
            let v: Option<u128> = match n.op {
                Op::Const => Some(n.k),
                Op::Var => Some(self.model.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w)),
                Op::Extract | Op::SExt => match get(&self.memo, n.a) {
                    None => {
                        st.push(n.a);
                        None
                    }
                    Some(v) => Some(if n.op == Op::Extract {
                        (if width(n.a) > 128 { self.wide_extract(n.a, n.k as u32, n.w) } else { v >> n.k }) & mask(n.w)
                    } else {
                        sx(v, width(n.a)) as u128 & mask(n.w)
                    }),
                },
                Op::Ite => match get(&self.memo, n.a) {
                    None => {
                        st.push(n.a);
                        None
                    }
                    Some(cv) => {
                        let t = if cv == 1 { n.b } else { n.c };
                        match get(&self.memo, t) {
                            None => {
                                st.push(t);
                                None
                            }
                            Some(v) => Some(v),
                        }
                    }
                },
                _ => {
                    let (x1, y1) = (get(&self.memo, n.a), get(&self.memo, n.b));
                    if x1.is_none() {
                        st.push(n.a);
                    }
                    if y1.is_none() {
                        st.push(n.b);
                    }
                    match (x1, y1) {
                        (Some(p), Some(q)) => Some(match n.op {
                            Op::Eq => (p == q) as u128,
                            Op::Ult => (p < q) as u128,
                            Op::Slt => {
                                let w = width(n.a);
                                (sx(p, w) < sx(q, w)) as u128
                            }
                            Op::Concat => {
                                let lw = width(n.b);
                                if lw >= 128 {
                                    q
                                } else {
                                    (p << lw) | q
                                }
                            }
                            op => fold(op, n.w, p, q),
                        }),
                        _ => None,
                    }
                }
            };
            if let Some(v) = v {
                self.memo.insert(x, v);
                st.pop();
            }
        }
        self.memo[&e]
    }
    fn wide_extract(&mut self, _e: Ex, _lo: u32, _w: u32) -> u128 {
        panic!("wide extract in eval")
    }
}

pub fn show(e: Ex, depth: u32) -> String {
    let n = node(e);
    if depth == 0 && n.op != Op::Const && n.op != Op::Var {
        return "..".into();
    }
    match n.op {
        Op::Const => format!("0x{:x}:{}", n.k, n.w),
        Op::Var => cx().var_names[n.k as usize].clone(),
        Op::Extract => format!("{}[{}+:{}]", show(n.a, depth - 1), n.k, n.w),
        Op::SExt => format!("sext{}({})", n.w, show(n.a, depth - 1)),
        Op::Ite => format!("ite({},{},{})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        op => format!("{:?}({},{})", op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}

/// If `e` says that the high half of a product of two zero-extended `w`-bit numbers is zero, those numbers.
pub fn mul_no_overflow(e: Ex) -> Option<(Ex, Ex)> {
    let n = node(e);
    if n.op != Op::Eq {
        return None;
    }
    let (x, z) = if as_const(n.b) == Some(0) { (n.a, n.b) } else { (n.b, n.a) };
    if as_const(z) != Some(0) {
        return None;
    }
    let m = node(x);
    if m.op != Op::Extract || m.k as u32 != m.w {
        return None;
    }
    let (w, m) = (m.w, node(m.a));
    if m.op != Op::Mul || m.w != 2 * w {
        return None;
    }
    let small = |y: Ex| -> bool { as_const(extract(y, w, w)) == Some(0) };
    if small(m.a) && small(m.b) {
        Some((extract(m.a, 0, w), extract(m.b, 0, w)))
    } else {
        None
    }
}
