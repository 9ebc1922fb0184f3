//! Z3 back end (system libz3 through its C API).
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type A = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> A;
    fn Z3_mk_context(c: A) -> A;
    fn Z3_del_context(c: A);
    fn Z3_set_error_handler(c: A, h: Option<extern "C" fn(A, c_uint)>);
    fn Z3_get_error_msg(c: A, e: c_uint) -> *const c_char;
    fn Z3_mk_string_symbol(c: A, s: *const c_char) -> A;
    fn Z3_mk_bv_sort(c: A, n: c_uint) -> A;
    fn Z3_mk_const(c: A, s: A, t: A) -> A;
    fn Z3_mk_unsigned_int64(c: A, v: u64, t: A) -> A;
    fn Z3_mk_true(c: A) -> A;
    fn Z3_mk_eq(c: A, a: A, b: A) -> A;
    fn Z3_mk_not(c: A, a: A) -> A;
    fn Z3_mk_and(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_or(c: A, n: c_uint, a: *const A) -> A;
    fn Z3_mk_xor(c: A, a: A, b: A) -> A;
    fn Z3_mk_ite(c: A, x: A, a: A, b: A) -> A;
    fn Z3_mk_bvadd(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsub(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvmul(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvudiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsdiv(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvurem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsrem(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvand(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvxor(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvshl(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvlshr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvashr(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvult(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvule(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvslt(c: A, a: A, b: A) -> A;
    fn Z3_mk_bvsle(c: A, a: A, b: A) -> A;
    fn Z3_mk_concat(c: A, a: A, b: A) -> A;
    fn Z3_mk_extract(c: A, h: c_uint, l: c_uint, a: A) -> A;
    fn Z3_mk_zero_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_sign_ext(c: A, n: c_uint, a: A) -> A;
    fn Z3_mk_solver(c: A) -> A;
    fn Z3_mk_solver_for_logic(c: A, s: A) -> A;
    fn Z3_solver_inc_ref(c: A, s: A);
    fn Z3_solver_dec_ref(c: A, s: A);
    fn Z3_solver_push(c: A, s: A);
    fn Z3_solver_pop(c: A, s: A, n: c_uint);
    fn Z3_solver_assert(c: A, s: A, a: A);
    fn Z3_solver_check(c: A, s: A) -> c_int;
    fn Z3_solver_get_model(c: A, s: A) -> A;
    fn Z3_solver_to_string(c: A, s: A) -> *const c_char;
    fn Z3_model_inc_ref(c: A, m: A);
    fn Z3_model_dec_ref(c: A, m: A);
    fn Z3_model_eval(c: A, m: A, a: A, compl: bool, out: *mut A) -> bool;
    fn Z3_get_numeral_uint64(c: A, a: A, v: *mut u64) -> bool;
    fn Z3_mk_params(c: A) -> A;
    fn Z3_params_inc_ref(c: A, p: A);
    fn Z3_params_set_uint(c: A, p: A, k: A, v: c_uint);
    fn Z3_solver_set_params(c: A, s: A, p: A);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: A, e: c_uint) { unsafe { eprintln!("z3 error {}: {:?}", e, CStr::from_ptr(Z3_get_error_msg(c, e))); } std::process::exit(97); }

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub time_us: u64, pub max_us: u64 }

pub struct Z { pub raw: bool, c: A, s: A, bv: FxMap<u32, A>, bl: FxMap<u32, A>, cache: FxMap<Vec<u32>, Res>, pub stats: Stats, pub timeout_ms: u32, pub deadline: Option<Instant>, pub dump: Option<String>, pub ndump: usize, sorts: FxMap<u32, A> }

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z {
    pub fn new() -> Z { let mut z = Z { raw: true, c: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: FxMap::default(), bl: FxMap::default(), cache: FxMap::default(), stats: Stats::default(), timeout_ms: 30000, deadline: None, dump: None, ndump: 0, sorts: FxMap::default() }; z.reset(); z }
    fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() { Z3_solver_dec_ref(self.c, self.s); Z3_del_context(self.c); }
            self.bv.clear(); self.bl.clear(); self.sorts.clear();
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            self.s = Z3_mk_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    fn sort(&mut self, w: u32) -> A { let c = self.c; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) }) }
    fn num(&mut self, w: u32, v: u128) -> A {
        unsafe {
            if w <= 64 { let s = self.sort(w); Z3_mk_unsigned_int64(self.c, v as u64, s) }
            else { let h = self.num(w - 64, v >> 64); let l = self.num(64, v & (u64::MAX as u128)); Z3_mk_concat(self.c, h, l) }
        }
    }
    fn table(&mut self, idx: A, t: &Tab, w: u32) -> A {
        // runs with constant value or constant offset
        let mut runs: Vec<(usize, usize, u64, u64)> = vec![]; // [start,end]: step, value at 0
        let mk = m128(w) as u64;
        let mut i = 0;
        while i < 256 {
            let mut j = i;
            while j + 1 < 256 && t.get(j + 1) == t.get(i) { j += 1; }
            let mut l = i;
            let d = if i < 255 { t.get(i + 1).wrapping_sub(t.get(i)) & mk } else { 0 };
            if w >= 8 && d != 0 { while l + 1 < 256 && t.get(l + 1).wrapping_sub(t.get(l)) & mk == d { l += 1; } }
            if l > j + 1 { runs.push((i, l, d, t.get(i).wrapping_sub(d.wrapping_mul(i as u64)))); i = l + 1; } else { runs.push((i, j, 0, t.get(i))); i = j + 1; }
        }
        unsafe {
            let c = self.c;
            let z = if w > 8 { Z3_mk_zero_ext(c, w - 8, idx) } else { idx };
            let mut val = |s: &mut Self, r: &(usize, usize, u64, u64)| -> A {
                let k = s.num(w, (r.3 as u128) & m128(w));
                if r.2 == 0 { return k; }
                let y = if r.2 == 1 { z } else { let d = s.num(w, (r.2 as u128) & m128(w)); Z3_mk_bvmul(c, z, d) };
                Z3_mk_bvadd(c, y, k)
            };
            // balanced tree over the runs
            fn tree(s: &mut Z, idx: A, runs: &[(usize, usize, u64, u64)], val: &mut dyn FnMut(&mut Z, &(usize, usize, u64, u64)) -> A) -> A {
                if runs.len() == 1 { return val(s, &runs[0]); }
                let m = runs.len() / 2;
                let l = tree(s, idx, &runs[..m], val);
                let r = tree(s, idx, &runs[m..], val);
                let k = s.num(8, runs[m].0 as u128);
                unsafe { Z3_mk_ite(s.c, Z3_mk_bvult(s.c, idx, k), l, r) }
            }
            tree(self, idx, &runs, &mut val)
        }
    }
    fn bv(&mut self, e: u32) -> A {
        if let Some(r) = self.bv.get(&e) { return *r; }
        let x = n(e);
        let c = self.c;
        if let (false, true, Some(t)) = (self.raw, matches!(x.op, X::UDiv | X::URem | X::SDiv | X::SRem | X::Mul), &x.tab) {
            // the value table of a term over one byte variable
            let a = self.bv(cx().vars[sup(e)[0] as usize].node);
            let t = t.clone();
            let r = self.table(a, &t, x.w);
            self.bv.insert(e, r);
            return r;
        }
        let r = unsafe {
            match x.op {
                X::Const => self.num(x.w, x.k),
                X::Var => { let s = self.sort(x.w); let nm = CString::new(format!("v{}", x.k)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s) }
                X::Eq | X::Ult | X::Ule | X::Slt | X::Sle => { let b = self.bool(e); let (o, z) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(c, b, o, z) }
                X::And | X::Or | X::Xor if x.w == 1 => { let b = self.bool(e); let (o, z) = (self.num(1, 1), self.num(1, 0)); Z3_mk_ite(c, b, o, z) }
                X::Ite => { let b = self.bool(x.a); let (p, q) = (self.bv(x.b), self.bv(x.c)); Z3_mk_ite(c, b, p, q) }
                X::Extract => { let a = self.bv(x.a); Z3_mk_extract(c, x.k as u32 + x.w - 1, x.k as u32, a) }
                X::ZExt => { let a = self.bv(x.a); Z3_mk_zero_ext(c, x.w - n(x.a).w, a) }
                X::SExt => { let a = self.bv(x.a); Z3_mk_sign_ext(c, x.w - n(x.a).w, a) }
                X::Tab => { let a = self.bv(x.a); let t = cx().tables[x.k as usize].clone(); self.table(a, &t, x.w) }
                _ => {
                    let (a, b) = (self.bv(x.a), self.bv(x.b));
                    match x.op {
                        X::Add => Z3_mk_bvadd(c, a, b), X::Sub => Z3_mk_bvsub(c, a, b), X::Mul => Z3_mk_bvmul(c, a, b), X::UDiv => Z3_mk_bvudiv(c, a, b), X::SDiv => Z3_mk_bvsdiv(c, a, b),
                        X::URem => Z3_mk_bvurem(c, a, b), X::SRem => Z3_mk_bvsrem(c, a, b), X::And => Z3_mk_bvand(c, a, b), X::Or => Z3_mk_bvor(c, a, b), X::Xor => Z3_mk_bvxor(c, a, b),
                        X::Shl => Z3_mk_bvshl(c, a, b), X::LShr => Z3_mk_bvlshr(c, a, b), X::AShr => Z3_mk_bvashr(c, a, b), X::Concat => Z3_mk_concat(c, a, b), _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn bool(&mut self, e: u32) -> A {
        if let Some(r) = self.bl.get(&e) { return *r; }
        let x = n(e);
        let c = self.c;
        let r = unsafe {
            match x.op {
                X::Const => { let t = Z3_mk_true(c); if x.k != 0 { t } else { Z3_mk_not(c, t) } }
                X::And => { let v = [self.bool(x.a), self.bool(x.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                X::Or => { let v = [self.bool(x.a), self.bool(x.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                X::Xor => { if const_val(x.b) == Some(1) { let a = self.bool(x.a); Z3_mk_not(c, a) } else { let (a, b) = (self.bool(x.a), self.bool(x.b)); Z3_mk_xor(c, a, b) } }
                X::Ite => { let (p, a, b) = (self.bool(x.a), self.bool(x.b), self.bool(x.c)); Z3_mk_ite(c, p, a, b) }
                X::Eq | X::Ult | X::Ule | X::Slt | X::Sle => {
                    let (a, b) = (self.bv(x.a), self.bv(x.b));
                    match x.op { X::Eq => Z3_mk_eq(c, a, b), X::Ult => Z3_mk_bvult(c, a, b), X::Ule => Z3_mk_bvule(c, a, b), X::Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) }
                }
                _ => { let a = self.bv(e); let o = self.num(1, 1); Z3_mk_eq(c, a, o) }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn left(&self, ms: u32) -> u32 { self.deadline.map_or(ms, |d| ms.min(d.saturating_duration_since(Instant::now()).as_millis() as u32 + 500)) }
    /// Satisfiability of a conjunction of i1 nodes.
    pub fn check(&mut self, cs: &mut Vec<u32>, use_cache: bool) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if cs.iter().any(|e| const_val(*e) == Some(0)) { return Res::Unsat; }
        cs.retain(|e| const_val(*e).is_none());
        if use_cache { if let Some(r) = self.cache.get(cs) { self.stats.cached += 1; return r.clone(); } }
        if self.bv.len() > 400_000 { self.reset(); }
        let t0 = Instant::now();
        let mut vars: Vec<u32> = vec![];
        for e in cs.iter() { vars.extend(sup(*e).iter()); }
        vars.sort_unstable();
        vars.dedup();
        let r = unsafe {
            let c = self.c;
            Z3_solver_push(c, self.s);
            for e in cs.iter() { let b = self.bool(*e); Z3_solver_assert(c, self.s, b); }
            if let Some(d) = &self.dump { if self.ndump < 400 { self.ndump += 1; let s = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned(); let _ = std::fs::write(format!("{}/{}_{}.smt2", d, std::process::id(), self.ndump), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s)); } }
            let mut solver = self.s;
            let left = self.left(self.timeout_ms);
            if left < self.timeout_ms { let p = Z3_mk_params(c); Z3_params_inc_ref(c, p); let k = CString::new("timeout").unwrap(); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), left); Z3_solver_set_params(c, self.s, p); }
            let mut st = Z3_solver_check(c, solver);
            let mut alt = std::ptr::null_mut();
            if st == 0 {
                let k = CString::new("QF_BV").unwrap();
                alt = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, k.as_ptr()));
                Z3_solver_inc_ref(c, alt);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.left(self.timeout_ms * 3));
                Z3_solver_set_params(c, alt, p);
                for e in cs.iter() { let b = self.bool(*e); Z3_solver_assert(c, alt, b); }
                st = Z3_solver_check(c, alt);
                solver = alt;
            }
            let r = match st {
                1 => {
                    let m = Z3_solver_get_model(c, solver);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for v in &vars { let a = self.bv(cx().vars[*v as usize].node); let mut o = std::ptr::null_mut(); let mut val = 0u64; Z3_model_eval(c, m, a, true, &mut o); Z3_get_numeral_uint64(c, o, &mut val); out.push((*v, val)); }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some(d) = &self.dump { if self.ndump <= 400 { let _ = std::fs::write(format!("{}/{}_{}.expect", d, std::process::id(), self.ndump), match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }); } }
            if !alt.is_null() { Z3_solver_dec_ref(c, alt); }
            Z3_solver_pop(c, self.s, 1);
            r
        };
        let us = t0.elapsed().as_micros() as u64;
        let s = &mut self.stats;
        s.queries += 1;
        s.time_us += us;
        s.max_us = s.max_us.max(us);
        match &r { Res::Sat(_) => s.sat += 1, Res::Unsat => s.unsat += 1, Res::Unknown => s.unknown += 1 }
        if let Res::Sat(m) = &r {
            // the model must satisfy our own evaluation of the formula
            let mm: FxMap<u32, u64> = m.iter().copied().collect();
            let f = |v: u32| *mm.get(&v).unwrap_or(&0) as u128;
            for e in cs.iter() { if eval(*e, &f) != 1 { eprintln!("engine error: Z3 model does not satisfy the formula (encoding mismatch)"); std::process::exit(98); } }
        }
        if r != Res::Unknown { self.cache.insert(cs.clone(), r.clone()); }
        r
    }
}
