//! Hash-consed bit-vector expression DAG with canonicalisation.
use crate::parse::mask64;
use std::collections::hash_map::Entry;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn finish(&self) -> u64 { self.0 }
}
pub type FxMap<K, Vv> = HashMap<K, Vv, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum X { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt, Tab }

pub enum Tab { B([u8; 256]), W([u64; 256]) }
impl Tab {
    #[inline] pub fn get(&self, i: usize) -> u64 { match self { Tab::B(t) => t[i] as u64, Tab::W(t) => t[i] } }
    fn new(v: &[u64; 256]) -> Tab { if v.iter().all(|x| *x < 256) { let mut b = [0u8; 256]; for i in 0..256 { b[i] = v[i] as u8; } Tab::B(b) } else { Tab::W(*v) } }
}
pub struct Node { pub op: X, pub w: u32, pub a: u32, pub b: u32, pub c: u32, pub k: u128, pub sup: u32, pub lo: u64, pub hi: u64, pub tab: Option<Rc<Tab>> }

pub struct VarInfo { pub name: String, pub w: u32, pub node: u32 }

#[derive(Default)]
pub struct Cx {
    pub nodes: Vec<Vec<Node>>, // fixed-capacity chunks: references stay valid
    pub nnodes: u32,
    map: FxMap<(X, u32, u32, u32, u32, u128), u32>,
    tabmap: FxMap<(u32, u32, u64, u64), u32>,
    pub vars: Vec<VarInfo>,
    pub sups: Vec<Rc<Vec<u32>>>,
    supmap: FxMap<Rc<Vec<u32>>, u32>,
    supu: FxMap<(u32, u32), u32>,
    pub tables: Vec<Rc<Tab>>,
    tablemap: FxMap<(u64, u64), u32>,
    lins: FxMap<u32, Option<Rc<Lin>>>,
}
/// The exact value of a node as a sum over 8-bit variables: `c` + sum of t[v], each table with minimum 0.
pub struct Lin { c: i128, t: Vec<(u32, Rc<[u64; 256]>)> }
impl Lin {
    fn hi(&self) -> i128 { self.c + self.t.iter().map(|t| *t.1.iter().max().unwrap() as i128).sum::<i128>() }
    /// A superset of the bits that can be set.
    fn bits(&self) -> u128 {
        if self.c < 0 { return !0; }
        let mut m = self.c as u128;
        for (_, t) in &self.t {
            let b = t.iter().fold(0u64, |a, x| a | x) as u128;
            if m & b != 0 { let h = self.hi() as u128; return if h == 0 { 0 } else { !0 >> h.leading_zeros() }; }
            m |= b;
        }
        m
    }
    fn push(&mut self, v: u32, t: &[i128; 256]) {
        let m = *t.iter().min().unwrap();
        self.c += m;
        if t.iter().all(|x| *x == m) { return; }
        let mut r = [0u64; 256];
        for i in 0..256 { r[i] = (t[i] - m) as u64; }
        self.t.push((v, Rc::new(r)));
    }
    /// The low `w` bits, when the bits above are the same for all values.
    fn low(mut self, w: u32) -> Option<Lin> {
        if self.c < 0 || w >= 64 { return self.fits(w); }
        if self.c >> w != self.hi() >> w { return None; }
        self.c &= (1i128 << w) - 1;
        Some(self)
    }
    fn fits(self, w: u32) -> Option<Lin> { if self.c >= 0 && self.hi() <= mask64(w) as i128 { Some(self) } else { None } }
}
fn lin_sum(a: &Lin, b: &Lin, kb: i128) -> Lin {
    let mut r = Lin { c: a.c + b.c * kb, t: vec![] };
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        let va = a.t.get(i).map_or(u32::MAX, |x| x.0);
        let vb = b.t.get(j).map_or(u32::MAX, |x| x.0);
        let mut t = [0i128; 256];
        if va <= vb { for k in 0..256 { t[k] += a.t[i].1[k] as i128; } }
        if vb <= va { for k in 0..256 { t[k] += b.t[j].1[k] as i128 * kb; } }
        r.push(va.min(vb), &t);
        if va <= vb { i += 1; }
        if vb <= va { j += 1; }
    }
    r
}
/// Quotient and remainder by a constant, when the remainders of the terms never carry.
fn lin_div(a: &Lin, k: i128) -> Option<(Lin, Lin)> {
    let mut q = Lin { c: a.c / k, t: vec![] };
    let mut r = Lin { c: a.c % k, t: vec![] };
    for (v, t) in &a.t {
        let (mut tq, mut tr) = ([0i128; 256], [0i128; 256]);
        for i in 0..256 { tq[i] = t[i] as i128 / k; tr[i] = t[i] as i128 % k; }
        q.push(*v, &tq);
        r.push(*v, &tr);
    }
    if r.hi() < k { Some((q, r)) } else { None }
}
fn lin_vars_ok(s: u32) -> bool { let v = &cx().sups[s as usize]; v.len() <= 20 && v.iter().all(|x| cx().vars[*x as usize].w == 8) }
pub fn lin(e: u32) -> Option<Rc<Lin>> {
    let x = n(e);
    if x.w > 64 || !lin_vars_ok(x.sup) { return None; }
    if let Some(r) = cx().lins.get(&e) { return r.clone(); }
    let r = lin_(e).and_then(|l| l.fits(x.w)).map(Rc::new);
    cx().lins.insert(e, r.clone());
    r
}
fn lin_(e: u32) -> Option<Lin> {
    let x = n(e);
    if x.op == X::Const { return Some(Lin { c: x.k as i128, t: vec![] }); }
    if let Some(tb) = &x.tab { let mut t = [0i128; 256]; for i in 0..256 { t[i] = tb.get(i) as i128; } let mut l = Lin { c: 0, t: vec![] }; l.push(cx().sups[x.sup as usize][0], &t); return Some(l); }
    match x.op {
        X::Add | X::Sub | X::Mul | X::UDiv | X::URem => lin_bin(x.op, x.a, x.b, x.w),
        X::ZExt => { let l = lin(x.a)?; Some(lin_sum(&l, &Lin { c: 0, t: vec![] }, 1)) }
        X::Concat => { let (h, l) = (lin(x.a)?, lin(x.b)?); Some(lin_sum(&l, &h, 1i128 << n(x.b).w)) }
        X::Extract => { let l = lin(x.a)?; let l = if x.k == 0 { lin_sum(&l, &Lin { c: 0, t: vec![] }, 1) } else { lin_div(&l, 1i128 << x.k)?.0 };
            if l.c >> x.w != l.hi() >> x.w { return Some(lin_div(&l, 1i128 << x.w)?.1); }
            l.low(x.w) }
        X::Or | X::Xor => { let (p, q) = (lin(x.a)?, lin(x.b)?); if p.bits() & q.bits() != 0 { return None; } Some(lin_sum(&p, &q, 1)) }
        X::Tab => { let t = cx().tables[x.k as usize].clone(); let mut u = [0u64; 256]; for i in 0..256 { u[i] = t.get(i); } lin_tab(x.a, x.w, &u) }
        _ => None,
    }
}
fn lin_bin(op: X, a: u32, b: u32, w: u32) -> Option<Lin> {
    let la = lin(a)?;
    let kb = const_val(b);
    match op {
        X::Add => { if let Some(k) = kb { if w > 1 && w <= 64 && (k >> (w - 1)) & 1 == 1 { return lin_sum(&la, &Lin { c: k as i128 - (1i128 << w), t: vec![] }, 1).fits(w); } } let lb = lin(b)?; lin_sum(&la, &*lb, 1).fits(w) }
        X::Sub => { let lb = lin(b)?; lin_sum(&la, &*lb, -1).fits(w) }
        X::Mul => { let k = kb? as i128; if k > 1 << 40 || la.hi() > 1 << 62 { return None; } let z = Lin { c: 0, t: vec![] }; lin_sum(&z, &la, k).fits(w) }
        X::UDiv | X::URem => { let k = kb? as i128; if k == 0 { return None; } let (q, r) = lin_div(&la, k)?; Some(if op == X::UDiv { q } else { r }) }
        _ => None,
    }
}
fn lin_node(l: Lin, w: u32) -> u32 {
    if l.t.is_empty() { return konst(w, l.c as u128); }
    let mk = |v: u32, t: &[u64; 256], c: u64| { let mut u = [0u64; 256]; for i in 0..256 { u[i] = t[i] + c; } tab(cx().vars[v as usize].node, w, &u) };
    // the constant goes into the first term
    let mut acc = mk(l.t[0].0, &l.t[0].1, l.c as u64);
    for (v, t) in &l.t[1..] { let x = mk(*v, t, 0); acc = raw(X::Add, w, acc, x, 0, 0); }
    cx().lins.insert(acc, Some(Rc::new(l)));
    acc
}
/// A term over several variables which is really over at most one.
fn collapse(op: X, w: u32, a: u32, b: u32, k: u128) -> Option<u32> {
    let x = n(a);
    if w > 64 || x.w > 64 || x.sup == 0 && op == X::Extract { return None; }
    let key = (op, w, a, b, 0, k);
    if cx().map.contains_key(&key) { return None; }
    if op == X::Extract { if x.tab.is_some() || !lin_vars_ok(x.sup) { return None; } }
    else { let y = n(b); if y.w > 64 || (x.sup == y.sup || x.sup == 0 || y.sup == 0) && (x.tab.is_some() || x.sup == 0) && (y.tab.is_some() || y.sup == 0) || !lin_vars_ok(x.sup) || !lin_vars_ok(y.sup) { return None; } }
    let z = || Lin { c: 0, t: vec![] };
    let l = match op {
        X::Extract => { let l = lin(a)?; let l = if k == 0 { lin_sum(&l, &z(), 1) } else { lin_div(&l, 1i128 << k)?.0 }; if l.c >> w != l.hi() >> w { lin_div(&l, 1i128 << w)?.1 } else { l.low(w)? } }
        X::Concat => { let (h, l) = (lin(a)?, lin(b)?); lin_sum(&l, &h, 1i128 << n(b).w) }
        _ => { let (p, q) = (lin(a)?, lin(b)?); if p.bits() & q.bits() != 0 { return None; } lin_sum(&p, &q, 1) }
    };
    if l.t.len() > 1 { return None; }
    Some(lin_node(l.fits(w)?, w))
}
/// A comparison of two exact sums.
fn lin_cmp(op: X, a: u32, b: u32) -> Option<u32> {
    let (la, lb) = (lin(a)?, lin(b)?);
    let d = lin_sum(&la, &lb, -1);
    let f = |x: i128| (if op == X::Eq { x == 0 } else { x < 0 }) as u64;
    if op == X::Eq && (d.c > 0 || d.hi() < 0) { return Some(konst(1, 0)); }
    if op == X::Ult { if d.c >= 0 { return Some(konst(1, 0)); } if d.hi() < 0 { return Some(konst(1, 1)); } }
    match d.t.len() {
        0 => Some(konst(1, f(d.c) as u128)),
        1 => { let mut t = [0u64; 256]; for i in 0..256 { t[i] = f(d.c + d.t[0].1[i] as i128); } Some(tab(cx().vars[d.t[0].0 as usize].node, 1, &t)) }
        _ => None,
    }
}
/// Is it worth trying the exact-sum form?
fn multi(a: u32, b: u32) -> bool {
    let (x, y) = (n(a), n(b));
    x.w <= 64 && (x.sup != 0 || y.sup != 0) && (x.sup != y.sup || x.tab.is_none() || y.tab.is_none()) && (x.tab.is_none() && x.op != X::Const || y.tab.is_none() && y.op != X::Const || x.sup != y.sup && x.sup != 0 && y.sup != 0) && lin_vars_ok(x.sup) && lin_vars_ok(y.sup)
}
static mut CX: *mut Cx = std::ptr::null_mut();
pub fn cx() -> &'static mut Cx {
    unsafe {
        if CX.is_null() {
            let mut c = Cx::default();
            c.sups.push(Rc::new(vec![]));
            c.supmap.insert(Rc::new(vec![]), 0);
            CX = Box::into_raw(Box::new(c));
        }
        &mut *CX
    }
}
#[inline] pub fn n(e: u32) -> &'static Node { let c = cx(); unsafe { c.nodes.get_unchecked((e >> 12) as usize).get_unchecked((e & 4095) as usize) } }
#[inline] pub fn width(e: u32) -> u32 { n(e).w }
pub fn m128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
pub fn const_val(e: u32) -> Option<u128> { let x = n(e); if x.op == X::Const { Some(x.k) } else { None } }
pub fn sup(e: u32) -> Rc<Vec<u32>> { cx().sups[n(e).sup as usize].clone() }
/// The one 8-bit variable this node depends on, if that is its whole support.
pub fn one_var(e: u32) -> Option<u32> {
    let s = n(e).sup;
    let v = &cx().sups[s as usize];
    if v.len() == 1 && cx().vars[v[0] as usize].w == 8 { Some(v[0]) } else { None }
}
fn sup_union(a: u32, b: u32) -> u32 {
    if a == b || b == 0 { return a; }
    if a == 0 { return b; }
    let k = if a < b { (a, b) } else { (b, a) };
    let c = cx();
    if let Some(r) = c.supu.get(&k) { return *r; }
    let mut v: Vec<u32> = c.sups[a as usize].iter().chain(c.sups[b as usize].iter()).copied().collect();
    v.sort_unstable();
    v.dedup();
    let r = sup_intern(v);
    c.supu.insert(k, r);
    r
}
fn sup_intern(v: Vec<u32>) -> u32 {
    let c = cx();
    let v = Rc::new(v);
    if let Some(r) = c.supmap.get(&v) { return *r; }
    let r = c.sups.len() as u32;
    c.sups.push(v.clone());
    c.supmap.insert(v, r);
    r
}
fn hash_tab(t: &[u64; 256]) -> (u64, u64) {
    let mut h1 = Fx(0x9e37);
    let mut h2: u64 = 0xcbf29ce484222325;
    for x in t.iter() { h1.write_u64(*x); h2 = (h2 ^ x).wrapping_mul(0x100000001b3).rotate_left(23); }
    (h1.0, h2)
}
pub fn table_id(t: &[u64; 256]) -> u32 {
    let c = cx();
    let h = hash_tab(t);
    match c.tablemap.entry(h) { Entry::Occupied(o) => *o.get(), Entry::Vacant(v) => { c.tables.push(Rc::new(Tab::new(t))); v.insert((c.tables.len() - 1) as u32); (c.tables.len() - 1) as u32 } }
}

pub fn apply(op: X, w: u32, wa: u32, a: u128, b: u128, c: u128, k: u128, wb: u32) -> u128 {
    let m = m128(w);
    (match op {
        X::Const | X::Var => k,
        X::Add => a.wrapping_add(b), X::Sub => a.wrapping_sub(b), X::Mul => a.wrapping_mul(b),
        X::UDiv => if b == 0 { m } else { a / b },
        X::URem => if b == 0 { a } else { a % b },
        X::SDiv => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        X::SRem => { let (x, y) = (sx128(a, w), sx128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        X::And => a & b, X::Or => a | b, X::Xor => a ^ b,
        X::Shl => if b >= w as u128 { 0 } else { a << b },
        X::LShr => if b >= w as u128 { 0 } else { a >> b },
        X::AShr => (sx128(a, w) >> (b.min(w as u128 - 1) as u32)) as u128,
        X::Eq => (a == b) as u128, X::Ult => (a < b) as u128, X::Ule => (a <= b) as u128,
        X::Slt => (sx128(a, wa) < sx128(b, wa)) as u128, X::Sle => (sx128(a, wa) <= sx128(b, wa)) as u128,
        X::Ite => if a != 0 { b } else { c },
        X::Concat => (a << wb) | b,
        X::Extract => a >> k,
        X::ZExt => a,
        X::SExt => sx128(a, wa) as u128,
        X::Tab => cx().tables[k as usize].get((a & 255) as usize) as u128,
    }) & m
}

fn ranges(op: X, w: u32, a: u32, b: u32, c: u32, k: u128) -> (u64, u64) {
    if w > 64 { return (0, u64::MAX); }
    let mx = mask64(w);
    let full = (0, mx);
    let (na, nb) = (n(a), n(b));
    let wide = na.w > 64 || (matches!(op, X::Add | X::Sub | X::Mul | X::And | X::Or | X::Xor | X::Concat) && nb.w > 64);
    if wide { return full; }
    match op {
        X::Add => { let (l, o1) = na.lo.overflowing_add(nb.lo); let (h, o2) = na.hi.overflowing_add(nb.hi); if o1 || o2 || h > mx { full } else { (l, h) } }
        X::Sub => if na.lo >= nb.hi { (na.lo - nb.hi, na.hi - nb.lo) } else { full },
        X::Mul => match na.hi.checked_mul(nb.hi) { Some(h) if h <= mx => (na.lo.wrapping_mul(nb.lo), h), _ => full },
        X::UDiv => if nb.lo > 0 { (na.lo / nb.hi, na.hi / nb.lo) } else { full },
        X::URem => if nb.lo > 0 { if na.hi < nb.lo { (na.lo, na.hi) } else { (0, (nb.hi - 1).min(na.hi)) } } else { full },
        X::And => (0, na.hi.min(nb.hi)),
        X::Or => { let h = na.hi | nb.hi; let h = if h == 0 { 0 } else { mask64(64 - h.leading_zeros()) }; (na.lo.max(nb.lo), h.min(mx)) }
        X::Xor => { let h = na.hi | nb.hi; let h = if h == 0 { 0 } else { mask64(64 - h.leading_zeros()) }; (0, h.min(mx)) }
        X::Shl => if let Some(s) = const_val(b) { if s < 64 && na.hi.leading_zeros() as u128 >= s && (na.hi << s) <= mx { (na.lo << s, na.hi << s) } else { full } } else { full },
        X::LShr => if let Some(s) = const_val(b) { if s < 64 { (na.lo >> s, na.hi >> s) } else { (0, 0) } } else { (0, na.hi) },
        X::ZExt => (na.lo, na.hi),
        X::Extract => if k == 0 && na.hi <= mx { (na.lo, na.hi) } else { full },
        X::Concat => ((na.lo << nb.w) | nb.lo, (na.hi << nb.w) | nb.hi),
        X::Ite => { let nc = n(c); (nb.lo.min(nc.lo), nb.hi.max(nc.hi)) }
        X::Tab => { let t = &cx().tables[k as usize]; let mut l = u64::MAX; let mut h = 0; for i in 0..256 { let x = t.get(i); l = l.min(x); h = h.max(x); } (l, h) }
        _ => full,
    }
}

fn raw(op: X, w: u32, a: u32, b: u32, c: u32, k: u128) -> u32 {
    let cxx = cx();
    let key = (op, w, a, b, c, k);
    if let Some(r) = cxx.map.get(&key) { return *r; }
    // support
    let nargs = match op { X::Const | X::Var => 0, X::Extract | X::ZExt | X::SExt | X::Tab => 1, X::Ite => 3, _ => 2 };
    let mut s = 0;
    if op == X::Var { s = sup_intern(vec![k as u32]); }
    if nargs >= 1 { s = sup_union(s, n(a).sup); }
    if nargs >= 2 { s = sup_union(s, n(b).sup); }
    if nargs >= 3 { s = sup_union(s, n(c).sup); }
    // single-variable table
    let mut tab: Option<Rc<Tab>> = None;
    let sv = cxx.sups[s as usize].clone();
    let mut key2 = None;
    if sv.len() == 1 && w <= 64 && cxx.vars[sv[0] as usize].w == 8 {
        let v = sv[0];
        let mut t = [0u64; 256];
        let ok = |e: u32| { let x = n(e); x.op == X::Const || x.tab.is_some() };
        if op == X::Var { for i in 0..256 { t[i] = i as u64; } }
        else if (nargs < 1 || ok(a)) && (nargs < 2 || ok(b)) && (nargs < 3 || ok(c)) {
            let g = |e: u32, i: usize| -> u128 { let x = n(e); if x.op == X::Const { x.k } else { x.tab.as_ref().unwrap().get(i) as u128 } };
            let (wa, wb) = (if nargs >= 1 { n(a).w } else { 0 }, if nargs >= 2 { n(b).w } else { 0 });
            for i in 0..256 { t[i] = apply(op, w, wa, if nargs >= 1 { g(a, i) } else { 0 }, if nargs >= 2 { g(b, i) } else { 0 }, if nargs >= 3 { g(c, i) } else { 0 }, k, wb) as u64; }
        } else {
            for i in 0..256u128 {
                let f = |_: u32| i;
                let ev = |e: u32| eval(e, &f);
                let (wa, wb) = (n(a).w, if nargs >= 2 { n(b).w } else { 0 });
                t[i as usize] = apply(op, w, wa, ev(a), if nargs >= 2 { ev(b) } else { 0 }, if nargs >= 3 { ev(c) } else { 0 }, k, wb) as u64;
            }
        }
        if t.iter().all(|x| *x == t[0]) { let r = konst(w, t[0] as u128); cxx.map.insert(key, r); return r; }
        let (h1, h2) = hash_tab(&t);
        if let Some(r) = cxx.tabmap.get(&(v, w, h1, h2)) { let r = *r; cxx.map.insert(key, r); return r; }
        key2 = Some((v, w, h1, h2));
        tab = Some(Rc::new(Tab::new(&t)));
    }
    let (lo, hi) = if let Some(t) = &tab { let mut l = u64::MAX; let mut h = 0; for i in 0..256 { let x = t.get(i); l = l.min(x); h = h.max(x); } (l, h) }
        else if op == X::Const { if w > 64 { (0, u64::MAX) } else { (k as u64, k as u64) } }
        else if nargs == 0 { (0, if w > 64 { u64::MAX } else { mask64(w) }) }
        else { ranges(op, w, a, if nargs >= 2 { b } else { a }, if nargs >= 3 { c } else { a }, k) };
    if op != X::Const && lo == hi && w <= 64 { let r = konst(w, lo as u128); cxx.map.insert(key, r); return r; }
    let id = cxx.nnodes;
    cxx.nnodes += 1;
    if id & 4095 == 0 { cxx.nodes.push(Vec::with_capacity(4096)); }
    cxx.nodes.last_mut().unwrap().push(Node { op, w, a, b, c, k, sup: s, lo, hi, tab });
    cxx.map.insert(key, id);
    if let Some(k2) = key2 { cxx.tabmap.insert(k2, id); }
    id
}
pub fn konst(w: u32, v: u128) -> u32 { raw(X::Const, w, 0, 0, 0, v & m128(w)) }
pub fn new_var(name: &str, w: u32) -> u32 {
    let c = cx();
    let id = c.vars.len() as u32;
    c.vars.push(VarInfo { name: name.to_string(), w, node: 0 });
    let nd = raw(X::Var, w, 0, 0, 0, id as u128);
    c.vars[id as usize].node = nd;
    nd
}
/// i1 node which holds iff variable v (8 bits) is in the bitmap.
pub fn dom_node(v: u32, bm: &[u64; 4]) -> u32 {
    let mut t = [0u64; 256];
    for i in 0..256 { t[i] = (bm[i / 64] >> (i % 64)) & 1; }
    let id = table_id(&t);
    raw(X::Tab, 1, cx().vars[v as usize].node, 0, 0, id as u128)
}

pub fn not1(a: u32) -> u32 { bin(X::Xor, a, konst(1, 1)) }
pub fn and1(a: u32, b: u32) -> u32 { bin(X::And, a, b) }
pub fn or1(a: u32, b: u32) -> u32 { bin(X::Or, a, b) }
pub fn zext(a: u32, w: u32) -> u32 {
    let x = n(a);
    if x.w == w { return a; }
    if x.op == X::Const { return konst(w, x.k); }
    if x.op == X::ZExt { return zext(x.a, w); }
    if w <= 64 && x.op == X::Add && x.tab.is_none() { if let Some(l) = lin(a) { return lin_node(lin_sum(&l, &Lin { c: 0, t: vec![] }, 1), w); } }
    raw(X::ZExt, w, a, 0, 0, 0)
}
pub fn sext(a: u32, w: u32) -> u32 {
    let x = n(a);
    if x.w == w { return a; }
    if x.op == X::Const { return konst(w, sx128(x.k, x.w) as u128); }
    if x.w <= 64 && x.hi < (1u64 << (x.w - 1)) { return zext(a, w); }
    raw(X::SExt, w, a, 0, 0, 0)
}
pub fn extract(a: u32, hi: u32, lo: u32) -> u32 {
    let w = hi - lo + 1;
    let x = n(a);
    if w == x.w { return a; }
    match x.op {
        X::Const => return konst(w, x.k >> lo),
        X::Extract => return extract(x.a, hi + x.k as u32, lo + x.k as u32),
        X::ZExt => { let iw = n(x.a).w; if lo >= iw { return konst(w, 0); } if hi < iw { return extract(x.a, hi, lo); } return zext(extract(x.a, iw - 1, lo), w); }
        X::SExt => { let iw = n(x.a).w; if hi < iw { return extract(x.a, hi, lo); } }
        X::Concat => { let bw = n(x.b).w; if hi < bw { return extract(x.b, hi, lo); } if lo >= bw { return extract(x.a, hi - bw, lo - bw); } return concat(extract(x.a, hi - bw, 0), extract(x.b, bw - 1, lo)); }
        X::And | X::Or | X::Xor if x.w > 1 && (n(x.a).op == X::Const || n(x.b).op == X::Const) => { let (p, q) = (extract(x.a, hi, lo), extract(x.b, hi, lo)); return bin(x.op, p, q); }
        X::Ite => { if n(x.b).op == X::Const || n(x.c).op == X::Const { let (p, q) = (extract(x.b, hi, lo), extract(x.c, hi, lo)); return ite(x.a, p, q); } }
        X::Add | X::Sub | X::Mul if lo == 0 && x.tab.is_none() => { let (p, q) = (extract(x.a, hi, 0), extract(x.b, hi, 0)); if n(p).op == X::Const || n(q).op == X::Const || w <= 64 && x.w > 64 { return bin(x.op, p, q); } }
        _ => {}
    }
    if x.w <= 64 && lo < 64 && (x.hi >> lo) == 0 { return konst(w, 0); }
    if x.w <= 64 && x.op == X::Add && x.tab.is_none() { if let Some(l) = lin(a) { let l = if lo == 0 { Some(lin_sum(&l, &Lin { c: 0, t: vec![] }, 1)) } else { lin_div(&l, 1i128 << lo).map(|x| x.0) }; if let Some(l) = l.and_then(|l| l.low(w)) { return lin_node(l, w); } } }
    if let Some(r) = collapse(X::Extract, w, a, 0, lo as u128) { return r; }
    raw(X::Extract, w, a, 0, 0, lo as u128)
}
pub fn concat(a: u32, b: u32) -> u32 {
    let (x, y) = (n(a), n(b));
    let w = x.w + y.w;
    if x.op == X::Const && y.op == X::Const { return konst(w, (x.k << y.w) | y.k); }
    if x.op == X::Const && x.k == 0 { return zext(b, w); }
    if y.op == X::Const && x.op == X::Concat && n(x.b).op == X::Const { let l = concat(x.b, b); return concat(x.a, l); }
    if y.op == X::Concat && x.op == X::Const && n(y.a).op == X::Const { let h = concat(a, y.a); return concat(h, y.b); }
    if x.op == X::Extract && y.op == X::Extract && x.a == y.a && x.k == y.k + y.w as u128 { return extract(x.a, x.k as u32 + x.w - 1, y.k as u32); }
    // Concat(Extract(e), Concat(Extract(e), rest))
    if y.op == X::Concat { let z = n(y.a); if x.op == X::Extract && z.op == X::Extract && x.a == z.a && x.k == z.k + z.w as u128 { let h = extract(x.a, x.k as u32 + x.w - 1, z.k as u32); return concat(h, y.b); } }
    // right-nested canonical form
    if x.op == X::Concat { let r = concat(x.b, b); return concat(x.a, r); }
    if x.op == X::ZExt { let t = concat(x.a, b); return zext(t, w); }
    if let Some(r) = collapse(X::Concat, w, a, b, 0) { return r; }
    raw(X::Concat, w, a, b, 0, 0)
}
pub fn ite(c: u32, a: u32, b: u32) -> u32 {
    if a == b { return a; }
    if let Some(k) = const_val(c) { return if k != 0 { a } else { b }; }
    let (x, y) = (n(a), n(b));
    if x.w == 1 {
        if x.op == X::Const { return if x.k == 1 { or1(c, b) } else { and1(not1(c), b) }; }
        if y.op == X::Const { return if y.k == 1 { or1(not1(c), a) } else { and1(c, a) }; }
    }
    let z = n(c);
    if z.op == X::Xor && const_val(z.b) == Some(1) { return ite(z.a, b, a); }
    if z.op == X::Xor && const_val(z.a) == Some(1) { return ite(z.b, b, a); }
    raw(X::Ite, x.w, c, a, b, 0)
}
fn split_at(e: u32) -> Option<u32> { let x = n(e); match x.op { X::Concat => Some(n(x.b).w), X::ZExt => Some(n(x.a).w), _ => None } }
fn parts(e: u32, s: u32) -> (u32, u32) { (extract(e, n(e).w - 1, s), extract(e, s - 1, 0)) }

pub fn bin(op: X, a: u32, b: u32) -> u32 {
    let (x, y) = (n(a), n(b));
    debug_assert_eq!(x.w, y.w);
    let w = x.w;
    let rw = match op { X::Eq | X::Ult | X::Ule | X::Slt | X::Sle => 1, _ => w };
    if x.op == X::Const && y.op == X::Const { return konst(rw, apply(op, rw, w, x.k, y.k, 0, 0, w)); }
    // commutative: constant on the right, otherwise ordered
    match op { X::Add | X::Mul | X::And | X::Or | X::Xor | X::Eq => if x.op == X::Const || (y.op != X::Const && a > b) { return bin_(op, rw, b, a); }, _ => {} }
    bin_(op, rw, a, b)
}
fn bin_(op: X, rw: u32, a: u32, b: u32) -> u32 {
    let (x, y) = (n(a), n(b));
    let w = x.w;
    let ones = m128(w);
    if multi(a, b) {
        match op {
            X::Add | X::Sub | X::Mul | X::UDiv | X::URem => if let Some(l) = lin_bin(op, a, b, w) { return lin_node(l, w); },
            X::Eq | X::Ult => if let Some(r) = lin_cmp(op, a, b) { return r; },
            _ => {}
        }
    }
    let yk = if y.op == X::Const { Some(y.k) } else { None };
    match op {
        X::Add => { if yk == Some(0) { return a; } if let Some(k) = yk { if x.op == X::Add { if let Some(k2) = const_val(x.b) { return bin(X::Add, x.a, konst(w, k.wrapping_add(k2))); } } } }
        X::Sub => { if yk == Some(0) { return a; } if a == b { return konst(w, 0); } if let Some(k) = yk { return bin(X::Add, a, konst(w, k.wrapping_neg())); }
            if x.op == X::Add && x.a == b { return x.b; } if x.op == X::Add && x.b == b { return x.a; }
            if x.op == X::Add && y.op == X::Add && x.b == y.b { return bin(X::Sub, x.a, y.a); }
            if x.op == X::Add && y.op == X::Add && x.a == y.a { return bin(X::Sub, x.b, y.b); } }
        X::Mul => { if yk == Some(0) { return b; } if yk == Some(1) { return a; } if let Some(k) = yk { if k.is_power_of_two() { return bin(X::Shl, a, konst(w, k.trailing_zeros() as u128)); } } }
        X::UDiv => { if yk == Some(1) { return a; } if let Some(k) = yk { if k.is_power_of_two() { return bin(X::LShr, a, konst(w, k.trailing_zeros() as u128)); } if w <= 64 && (x.hi as u128) < k { return konst(w, 0); }
            // narrow
            if x.op == X::ZExt { let iw = n(x.a).w; if k <= m128(iw) { let q = bin(X::UDiv, x.a, konst(iw, k)); return zext(q, w); } } } }
        X::URem => { if yk == Some(1) { return konst(w, 0); } if let Some(k) = yk { if k.is_power_of_two() { return bin(X::And, a, konst(w, k - 1)); } if w <= 64 && (x.hi as u128) < k { return a; }
            if x.op == X::ZExt { let iw = n(x.a).w; if k <= m128(iw) { let q = bin(X::URem, x.a, konst(iw, k)); return zext(q, w); } } } }
        X::And => {
            if a == b || yk == Some(ones) { return a; }
            if yk == Some(0) { return b; }
            if w == 1 { if is_not(a, b) { return konst(1, 0); }
                // absorb: And(x, And(x, y))
                if y.op == X::And && (y.a == a || y.b == a) { return b; } if x.op == X::And && (x.a == b || x.b == b) { return a; } }
            if let Some(k) = yk {
                if x.op == X::And { if let Some(k2) = const_val(x.b) { return bin(X::And, x.a, konst(w, k & k2)); } }
                if let Some(s) = split_at(a) { let (h, l) = parts(a, s); let hh = bin(X::And, h, konst(w - s, k >> s)); let ll = bin(X::And, l, konst(s, k)); return concat(hh, ll); }
                // contiguous low mask = zext(extract)
                if (k & (k + 1)) == 0 { let bits = 128 - k.leading_zeros(); let e = extract(a, bits - 1, 0); return zext(e, w); }
                if x.op == X::Or { if let Some(k2) = const_val(x.b) { if k & k2 == 0 { return bin(X::And, x.a, b); } } }
            }
        }
        X::Or => {
            if a == b || yk == Some(0) { return a; }
            if yk == Some(ones) { return b; }
            if w == 1 { if is_not(a, b) { return konst(1, 1); } if y.op == X::Or && (y.a == a || y.b == a) { return b; } if x.op == X::Or && (x.a == b || x.b == b) { return a; } }
        }
        X::Xor => {
            if a == b { return konst(w, 0); }
            if yk == Some(0) { return a; }
            if yk.is_some() && x.op == X::Xor { if let Some(k2) = const_val(x.b) { return bin(X::Xor, x.a, konst(w, yk.unwrap() ^ k2)); } }
        }
        X::Shl => if let Some(k) = yk { if k == 0 { return a; } if k >= w as u128 { return konst(w, 0); } let k = k as u32; let e = extract(a, w - 1 - k, 0); return concat(e, konst(k, 0)); } else if x.op == X::Const && x.k == 0 { return a; },
        X::LShr => if let Some(k) = yk { if k == 0 { return a; } if k >= w as u128 { return konst(w, 0); } let k = k as u32; return zext(extract(a, w - 1, k), w); } else if x.op == X::Const && x.k == 0 { return a; },
        X::AShr => if let Some(k) = yk { if k == 0 { return a; } if k < w as u128 { let k = k as u32; return sext(extract(a, w - 1, k), w); } },
        X::Eq => {
            if a == b { return konst(1, 1); }
            if w == 1 { if let Some(k) = yk { return if k == 1 { a } else { not1(a) }; } }
            if w <= 64 && (x.hi < y.lo || y.hi < x.lo) { return konst(1, 0); }
            if let Some(k) = yk {
                if x.op == X::Ite { // push into constant arms
                    let (p, q) = (const_val(x.b), const_val(x.c));
                    if p.is_some() || q.is_some() { let l = bin(X::Eq, x.b, b); let r = bin(X::Eq, x.c, b); return ite(x.a, l, r); }
                }
                if x.op == X::Add { if let Some(k2) = const_val(x.b) { return bin(X::Eq, x.a, konst(w, k.wrapping_sub(k2))); } }
                if x.op == X::Xor { if let Some(k2) = const_val(x.b) { return bin(X::Eq, x.a, konst(w, k ^ k2)); } }
                if x.op == X::SExt { let iw = n(x.a).w; if sx128(k & m128(iw), iw) as u128 & ones == k { return bin(X::Eq, x.a, konst(iw, k)); } return konst(1, 0); }
            }
            if x.tab.is_none() || y.tab.is_none() {
                if let Some(s) = split_at(a).or(split_at(b)) {
                    if yk.is_some() || (split_at(a) == split_at(b)) || matches!(x.op, X::Concat | X::ZExt) && matches!(y.op, X::Concat | X::ZExt) { let (h, l) = parts(a, s); let (h2, l2) = parts(b, s); let p = bin(X::Eq, h, h2); let q = bin(X::Eq, l, l2); return and1(p, q); }
                }
                if x.op == X::Xor && yk == Some(0) && const_val(x.b).is_none() { return bin(X::Eq, x.a, x.b); }
                if x.op == X::Or && yk == Some(0) { let p = bin(X::Eq, x.a, b); let q = bin(X::Eq, x.b, b); return and1(p, q); }
            }
        }
        X::Ult => { if a == b { return konst(1, 0); } if w <= 64 { if x.hi < y.lo { return konst(1, 1); } if x.lo >= y.hi { return konst(1, 0); } }
            if x.op == X::ZExt && y.op == X::Const { let iw = n(x.a).w; if y.k <= m128(iw) { return bin(X::Ult, x.a, konst(iw, y.k)); } return konst(1, 1); }
            if y.op == X::ZExt && x.op == X::Const { let iw = n(y.a).w; if x.k <= m128(iw) { return bin(X::Ult, konst(iw, x.k), y.a); } return konst(1, 0); }
            if x.op == X::ZExt && y.op == X::ZExt && n(x.a).w == n(y.a).w { return bin(X::Ult, x.a, y.a); } }
        X::Ule => { let r = bin(X::Ult, b, a); return not1(r); }
        X::Slt => { if a == b { return konst(1, 0); } if w <= 64 { let h = 1u64 << (w - 1); if x.hi < h && y.hi < h { return bin(X::Ult, a, b); } if x.lo >= h && y.hi < h { return konst(1, 1); } if x.hi < h && y.lo >= h { return konst(1, 0); } } }
        X::SDiv | X::SRem if w <= 64 && x.hi < 1u64 << (w - 1) && yk.map_or(false, |k| k > 0 && (k as u64) < 1u64 << (w - 1)) => return bin(if op == X::SDiv { X::UDiv } else { X::URem }, a, b),
        X::Sle => { let r = bin(X::Slt, b, a); return not1(r); }
        _ => {}
    }
    // byte-structured bitwise operations
    if matches!(op, X::Or | X::Xor | X::And) && w > 1 && (x.tab.is_none() || y.tab.is_none()) {
        if let Some(s) = split_at(a).or(split_at(b)) {
            let both = split_at(a).is_some() && split_at(b).is_some();
            if both || yk.is_some() {
                let (h, l) = parts(a, s);
                let (h2, l2) = parts(b, s);
                let p = bin(op, h, h2);
                let q = bin(op, l, l2);
                return concat(p, q);
            }
        }
    }
    if matches!(op, X::Or | X::Xor) && w > 1 { if let Some(r) = collapse(op, rw, a, b, 0) { return r; } }
    raw(op, rw, a, b, 0, 0)
}
fn is_not(a: u32, b: u32) -> bool {
    let (x, y) = (n(a), n(b));
    (x.op == X::Xor && const_val(x.b) == Some(1) && x.a == b) || (y.op == X::Xor && const_val(y.b) == Some(1) && y.a == a)
}
/// A table over a sum, when it is itself an exact sum over the same variables.
fn lin_tab(idx: u32, w: u32, t: &[u64; 256]) -> Option<Lin> {
    if w > 64 || n(idx).tab.is_some() || n(idx).op == X::Const { return None; }
    let l = lin(idx)?;
    if l.hi() > 255 || t.iter().any(|x| *x >> 40 != 0) { return None; }
    // distinct values of each term
    let mut vals: Vec<Vec<u64>> = vec![];
    let mut size = 1usize;
    for (_, x) in &l.t { let mut v: Vec<u64> = x.to_vec(); v.sort_unstable(); v.dedup(); size = size.saturating_mul(v.len()); vals.push(v); }
    if size > 1 << 12 { return None; }
    // every term has the value 0
    let at = |o: u64| t[(l.c as u64 + o) as usize] as i128;
    let base = at(0);
    let mut r = Lin { c: base, t: vec![] };
    for (v, x) in &l.t { let mut y = [0i128; 256]; for i in 0..256 { y[i] = at(x[i]) - base; } r.push(*v, &y); }
    let mut ix = vec![0usize; vals.len()];
    loop {
        let o: u64 = ix.iter().zip(&vals).map(|(i, v)| v[*i]).sum();
        let want: i128 = base + ix.iter().zip(&vals).map(|(i, v)| at(v[*i]) - base).sum::<i128>();
        if at(o) != want { return None; }
        let mut k = 0;
        while k < ix.len() { ix[k] += 1; if ix[k] < vals[k].len() { break; } ix[k] = 0; k += 1; }
        if k == ix.len() { break; }
    }
    r.fits(w)
}
pub fn tab(idx: u32, w: u32, t: &[u64; 256]) -> u32 {
    let x = n(idx);
    if x.tab.is_none() && x.op != X::Const {
        if x.w <= 8 && w <= 64 && (x.lo..=x.hi).all(|i| t[i as usize] == i && i <= mask64(w)) { return if w >= x.w { zext(idx, w) } else { extract(idx, w - 1, 0) }; }
        if x.op == X::Tab && x.w <= 8 {
            let inner = cx().tables[x.k as usize].clone();
            let mut u = [0u64; 256];
            for i in 0..256 { u[i] = t[(inner.get(i) & mask64(x.w)) as usize]; }
            return tab(x.a, w, &u);
        }
    }
    if let Some(l) = lin_tab(idx, w, t) { return lin_node(l, w); }
    let id = table_id(t); raw(X::Tab, w, idx, 0, 0, id as u128) }

/// Evaluate under an assignment.
pub fn eval(e: u32, f: &dyn Fn(u32) -> u128) -> u128 {
    let mut memo: FxMap<u32, u128> = FxMap::default();
    eval_m(e, f, &mut memo)
}
pub fn eval_m(e: u32, f: &dyn Fn(u32) -> u128, memo: &mut FxMap<u32, u128>) -> u128 {
    let x = n(e);
    match x.op { X::Const => return x.k, X::Var => return f(x.k as u32), _ => {} }
    if let Some(t) = &x.tab { let v = cx().sups[x.sup as usize][0]; return t.get(f(v) as usize & 255) as u128; }
    if let Some(r) = memo.get(&e) { return *r; }
    let a = eval_m(x.a, f, memo);
    let r = match x.op {
        X::Ite => if a != 0 { eval_m(x.b, f, memo) } else { eval_m(x.c, f, memo) },
        X::Extract | X::ZExt | X::SExt | X::Tab => apply(x.op, x.w, n(x.a).w, a, 0, 0, x.k, 0),
        _ => { let b = eval_m(x.b, f, memo); apply(x.op, x.w, n(x.a).w, a, b, 0, x.k, n(x.b).w) }
    };
    memo.insert(e, r);
    r
}
/// Split a conjunction into conjuncts (of node or of its negation).
pub fn conjuncts(e: u32, out: &mut Vec<u32>) {
    let x = n(e);
    if x.tab.is_some() { out.push(e); return; }
    if x.op == X::And { let (a, b) = (x.a, x.b); conjuncts(a, out); conjuncts(b, out); return; }
    if x.op == X::Xor && x.w == 1 && const_val(x.b) == Some(1) {
        let y = n(x.a);
        if y.op == X::Or && y.tab.is_none() { let (a, b) = (not1(y.a), not1(y.b)); conjuncts(a, out); conjuncts(b, out); return; }
    }
    out.push(e);
}
pub fn show(e: u32, d: u32) -> String {
    let x = n(e);
    if x.op == X::Const { return format!("{}", x.k); }
    if x.tab.is_some() && x.op != X::Var { return format!("T{}[v{}:{}..{}]", x.w, cx().sups[x.sup as usize][0], x.lo, x.hi); }
    if x.op == X::Var { return format!("v{}", cx().vars[x.k as usize].name); }
    if d == 0 { return "..".into(); }
    let na = match x.op { X::Extract | X::ZExt | X::SExt | X::Tab => 1, X::Ite => 3, _ => 2 };
    let a: Vec<String> = [x.a, x.b, x.c][..na].iter().map(|y| show(*y, d - 1)).collect();
    format!("({:?}{}#{} {}{})", x.op, x.w, x.k, a.join(" "), if lin(e).is_some() { " LIN" } else { "" })
}
