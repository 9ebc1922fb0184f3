//! Symbolic interpreter.
use crate::expr::{self, *};
use crate::parse::{self, *};
use crate::solver::{Res, Z};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<u32>>, pub ro: bool }
type Chunk = Vec<Option<Rc<Obj>>>;
const CH: usize = 64;
#[derive(Clone, Default)]
pub struct Mem { chunks: Vec<Rc<Chunk>>, next: u32 }
impl Mem {
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next as usize;
        self.next += 1;
        if id % CH == 0 { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(Rc::new(o)));
        ((id as u64) + 1) << 32
    }
    #[inline] pub fn get(&self, a: u64) -> Option<&Rc<Obj>> {
        let id = (a >> 32).wrapping_sub(1) as usize;
        self.chunks.get(id / CH)?.get(id % CH)?.as_ref()
    }
    #[inline] fn get_mut(&mut self, a: u64) -> Option<&mut Obj> {
        let id = (a >> 32).wrapping_sub(1) as usize;
        Rc::make_mut(self.chunks.get_mut(id / CH)?).get_mut(id % CH)?.as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, a: u64) -> bool {
        let id = (a >> 32).wrapping_sub(1) as usize;
        match self.chunks.get_mut(id / CH) { Some(c) => { let c = Rc::make_mut(c); if id % CH < c.len() && c[id % CH].is_some() { c[id % CH] = None; true } else { false } } None => false }
    }
}

#[derive(Clone)]
pub struct Pc { pub dom: Vec<[u64; 4]>, pub multi: Vec<u32>, pub ent: Vec<bool>, pub model: Vec<u64> }
impl Pc {
    fn ensure(&mut self) { let k = cx().vars.len(); while self.dom.len() < k { self.dom.push([!0; 4]); self.ent.push(false); self.model.push(0); } }
    #[inline] fn has(&self, v: u32, x: usize) -> bool { (self.dom[v as usize][x / 64] >> (x % 64)) & 1 != 0 }
    fn val(&self, v: u32) -> u128 { *self.model.get(v as usize).unwrap_or(&0) as u128 }
}

#[derive(Clone)]
pub struct Frame { f: &'static Func, fid: u32, block: u32, ip: u32, prev: u32, regs: Vec<V>, allocas: Vec<u64>, dst: u32 }

#[derive(Clone, Debug)]
pub enum Input { Bytes(String, Vec<u32>), U64(String, u32), Choice(String, u64) }

#[derive(Clone)]
pub struct State { mem: Mem, cur: Frame, stack: Vec<Rc<Frame>>, pub pc: Pc, pub steps: u64, inputs: Vec<Input>, reaches: Vec<u32>, prints: Vec<Rc<Vec<(u8, u32)>>>, depth: u32 }

pub enum Stop { Bad(String), Viol(String, String), Infeasible, Done, Refork }
type Res_<T> = Result<T, Stop>;

#[derive(Clone, Debug, Default)]
pub struct Witness { pub inputs: Vec<(String, String, String)>, pub prints: Vec<Vec<u8>>, pub reaches: Vec<String> }

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub forks: u64, pub merges: u64, pub dec_table: u64, pub dec_model: u64, pub dec_solver: u64,
    pub asserts_solver: u64, pub asserts_syntactic: u64, pub max_depth: u32,
    pub incomplete: Vec<String>, pub viols: Vec<(String, String, Witness)>, pub reach: BTreeMap<String, (u64, Option<Witness>)>, pub funcs: HashSet<u32>, pub path_wit: Vec<Witness>, pub frontier: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Defined, Panic, Nop, Alloc, AllocZ, Dealloc, Realloc, Malloc, Free, ReallocC, Memcpy, Memset, Memcmp, Bcmp, Strlen, Assume, Umax, Umin, Smax, Smin, Bswap, Ctlz, Cttz, Ctpop, Bitrev, Fshl, Fshr, Abs, Fabs, Scmp, Ucmp, UaddSat, UsubSat, SaddSat, SsubSat, AddO(bool), SubO(bool), MulO(bool), Tls, LoadRel, Trap, ZeroRet, Getrandom, Syscall, Write, Writev, Errno, Gettid, Expect, SymBytes, SymU64, SymChoice, SymAssume, SymAssert, SymAssertEq, SymReach, SymPrint, SymConc, Unsupported }

fn kind_of(name: &str, defined: bool) -> K {
    if name.contains("4core9panicking9panic_fmt") || name.contains("9panicking20rust_panic_with_hook") || name.contains("4core9panicking18panic_nounwind_fmt") || name.contains("alloc5alloc18handle_alloc_error") || name.contains("rust_begin_unwind") { return K::Panic; }
    if name.starts_with("__sym_") {
        return match name { "__sym_bytes" => K::SymBytes, "__sym_u64" => K::SymU64, "__sym_choice" => K::SymChoice, "__sym_assume" => K::SymAssume, "__sym_assert" => K::SymAssert, "__sym_assert_eq" => K::SymAssertEq, "__sym_reach" => K::SymReach, "__sym_print" => K::SymPrint, "__sym_conc" => K::SymConc, _ => K::Unsupported };
    }
    if defined { return K::Defined; }
    if name.contains("___rust_no_alloc_shim") { return K::Nop; }
    if name.contains("___rust_alloc_zeroed") { return K::AllocZ; }
    if name.contains("___rust_alloc") { return K::Alloc; }
    if name.contains("___rust_dealloc") { return K::Dealloc; }
    if name.contains("___rust_realloc") { return K::Realloc; }
    if let Some(l) = name.strip_prefix("llvm.") {
        let b = |p: &str| l.starts_with(p);
        return if b("lifetime") || b("experimental.noalias") || b("donothing") || b("x86.sse2.pause") || b("prefetch") || b("dbg") || b("sideeffect") { K::Nop }
            else if b("memcpy") || b("memmove") { K::Memcpy } else if b("memset") { K::Memset } else if b("assume") { K::Assume }
            else if b("umax") { K::Umax } else if b("umin") { K::Umin } else if b("smax") { K::Smax } else if b("smin") { K::Smin }
            else if b("bswap") { K::Bswap } else if b("ctlz") { K::Ctlz } else if b("cttz") { K::Cttz } else if b("ctpop") { K::Ctpop } else if b("bitreverse") { K::Bitrev }
            else if b("fshl") { K::Fshl } else if b("fshr") { K::Fshr } else if b("abs") { K::Abs } else if b("fabs") { K::Fabs } else if b("scmp") { K::Scmp } else if b("ucmp") { K::Ucmp }
            else if b("uadd.sat") { K::UaddSat } else if b("usub.sat") { K::UsubSat } else if b("sadd.sat") { K::SaddSat } else if b("ssub.sat") { K::SsubSat }
            else if b("uadd.with") { K::AddO(false) } else if b("sadd.with") { K::AddO(true) } else if b("usub.with") { K::SubO(false) } else if b("ssub.with") { K::SubO(true) } else if b("umul.with") { K::MulO(false) } else if b("smul.with") { K::MulO(true) }
            else if b("threadlocal.address") { K::Tls } else if b("load.relative") { K::LoadRel } else if b("trap") { K::Trap } else if b("x86.xgetbv") { K::ZeroRet } else if b("expect") { K::Expect } else { K::Unsupported };
    }
    match name {
        "malloc" => K::Malloc, "free" => K::Free, "realloc" => K::ReallocC, "memcmp" => K::Memcmp, "bcmp" => K::Bcmp, "strlen" => K::Strlen,
        "getrandom" => K::Getrandom, "syscall" => K::Syscall, "write" => K::Write, "writev" => K::Writev, "__errno_location" => K::Errno, "gettid" => K::Gettid, "abort" => K::Trap,
        "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "poll" | "pthread_detach" | "close" | "munmap" => K::ZeroRet,
        _ => K::Unsupported,
    }
}

pub struct Engine {
    pub m: &'static Module, kinds: Vec<K>, pub z: Z, pub rep: Report, pub work: VecDeque<State>, pub deadline: Instant, pub max_steps: u64, pub max_viol: usize, pub reach_names: Vec<String>,
    pub z3_all: bool, base: Mem, errno: u64, pub nrand: u64, pub max_enum: usize, pub trace: bool, pub nwit: usize, pub no_merge: bool, merge_stat: FxMap<usize, (u32, u32)>, pure_blk: FxMap<usize, bool>,
}

#[derive(Clone)]
pub struct El { cond: u32, patch: Vec<(u32, u64)>, regs: Vec<V>, block: u32, prev: u32, defs: Vec<(u32, u32)> }
fn veq(a: &V, b: &V) -> bool { match (a, b) { (V::C(x), V::C(y)) => x == y, (V::E(x), V::E(y)) => x == y, (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| veq(p, q)), _ => false } }
/// Elements which can be one state: same block, and every register both define either equal or a small integer.
fn group(els: Vec<El>) -> Vec<Vec<El>> {
    let mut gs: Vec<Vec<El>> = vec![];
    'o: for e in els {
        for g in gs.iter_mut() {
            if g[0].block != e.block { continue; }
            let ok = g.iter().all(|h| e.defs.iter().all(|(r, w)| { let o = h.defs.iter().find(|d| d.0 == *r); match o { None => true, Some((_, w2)) => veq(&e.regs[*r as usize], &h.regs[*r as usize]) || (*w == *w2 && *w > 0 && *w <= 32) } }));
            if ok { g.push(e); continue 'o; }
        }
        gs.push(vec![e]);
    }
    gs
}
fn vconst(v: &V) -> Option<u64> { match v { V::C(c) => Some(*c), V::E(e) => const_val(*e).map(|x| x as u64), _ => None } }
pub fn to_e(v: &V, w: u32) -> u32 { match v { V::C(c) => konst(w, *c as u128), V::E(e) => *e, V::A(_) => panic!("aggregate as int") } }
pub fn from_e(e: u32) -> V { let x = n(e); if x.w <= 64 && x.op == X::Const { V::C(x.k as u64) } else { V::E(e) } }

impl Engine {
    pub fn new(m: Module) -> Engine {
        let _ = konst(1, 0); // node 0 reserved
        let m: &'static Module = Box::leak(Box::new(m));
        let kinds = m.fnames.iter().enumerate().map(|(i, s)| kind_of(s, m.funcs[i].is_some())).collect();
        let mut base = Mem::default();
        for g in &m.globals { let a = base.alloc(Obj { data: g.bytes.clone(), sym: None, ro: g.constant }); debug_assert_eq!(a, g.addr); }
        let errno = base.alloc(Obj { data: vec![0; 8], sym: None, ro: false });
        Engine { m, kinds, z: Z::new(), rep: Report::default(), work: VecDeque::new(), deadline: Instant::now(), max_steps: 200_000_000, max_viol: 3, reach_names: vec![], z3_all: false, base, errno, nrand: 0, max_enum: 4096, trace: false, nwit: 6, no_merge: false, merge_stat: Default::default(), pure_blk: Default::default() }
    }
    pub fn late(&self) -> bool { Instant::now() > self.deadline }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let entry = self.m.aliases.get(entry).map_or(entry, |s| s.as_str());
        let fid = *self.m.fidx.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.m.funcs[fid as usize].as_ref().ok_or("entry not defined")?;
        let cur = Frame { f, fid, block: 0, ip: 0, prev: 0, regs: vec![V::C(0); f.nregs as usize], allocas: vec![], dst: u32::MAX };
        self.rep.funcs.insert(fid);
        self.work.push_back(State { mem: self.base.clone(), cur, stack: vec![], pc: Pc { dom: vec![], multi: vec![], ent: vec![], model: vec![] }, steps: 0, inputs: vec![], reaches: vec![], prints: vec![], depth: 0 });
        Ok(())
    }

    // ---------------------------------------------------------------- solver
    /// A model patch if pc /\ cond is satisfiable.
    fn feasible(&mut self, pc: &mut Pc, cond: u32) -> Res_<Option<Vec<(u32, u64)>>> {
        if let Some(k) = const_val(cond) { return Ok(if k != 0 { Some(vec![]) } else { None }); }
        pc.ensure();
        let mut cj = vec![];
        conjuncts(cond, &mut cj);
        let mut doms: Vec<(u32, [u64; 4])> = vec![];
        let mut simple = true;
        for c in &cj {
            if let (Some(v), Some(t)) = (one_var(*c), &n(*c).tab) {
                let k = match doms.iter().position(|d| d.0 == v) { Some(k) => k, None => { doms.push((v, pc.dom[v as usize])); doms.len() - 1 } };
                let d = &mut doms[k].1;
                let mut any = 0;
                for q in 0..4 { let mut bits = 0u64; let mut rem = d[q]; while rem != 0 { let b = rem.trailing_zeros() as usize; rem &= rem - 1; if t.get(q * 64 + b) != 0 { bits |= 1 << b; } } d[q] = bits; any |= bits; }
                if any == 0 { self.rep.dec_table += 1; if self.z3_all { self.cross(pc, cond, false); } return Ok(None); }
                if pc.ent[v as usize] { simple = false; }
            } else { simple = false; }
        }
        if simple {
            self.rep.dec_table += 1;
            let mut patch = vec![];
            for (v, d) in &doms {
                let cur = pc.model[*v as usize] as usize;
                if cur < 256 && (d[cur / 64] >> (cur % 64)) & 1 != 0 { continue; }
                let q = (0..4).find(|q| d[*q] != 0).unwrap();
                patch.push((*v, (q * 64) as u64 + d[q].trailing_zeros() as u64));
            }
            if self.z3_all { self.cross(pc, cond, true); }
            return Ok(Some(patch));
        }
        {
            let f = |v: u32| pc.val(v);
            if eval(cond, &f) == 1 { self.rep.dec_model += 1; return Ok(Some(vec![])); }
        }
        self.rep.dec_solver += 1;
        let mut cs = self.slice(pc, &cj);
        match self.z.check(&mut cs, true) { Res::Sat(m) => Ok(Some(m)), Res::Unsat => Ok(None), Res::Unknown => Err(Stop::Bad("solver: unknown".into())) }
    }
    /// The constraints of the connected component of `cj`.
    fn slice(&self, pc: &Pc, cj: &[u32]) -> Vec<u32> {
        let mut vars: HashSet<u32> = HashSet::new();
        for c in cj { vars.extend(sup(*c).iter()); }
        let mut used = vec![false; pc.multi.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.multi.iter().enumerate() { if !used[i] { let s = sup(*c); if s.iter().any(|v| vars.contains(v)) { used[i] = true; vars.extend(s.iter()); ch = true; } } }
            if !ch { break; }
        }
        let mut cs: Vec<u32> = cj.to_vec();
        for (i, c) in pc.multi.iter().enumerate() { if used[i] { cs.push(*c); } }
        for v in vars { if cx().vars[v as usize].w == 8 && pc.dom[v as usize] != [!0u64; 4] { cs.push(dom_node(v, &pc.dom[v as usize])); } }
        cs
    }
    fn cross(&mut self, pc: &Pc, cond: u32, expect: bool) {
        let mut cj = vec![];
        conjuncts(cond, &mut cj);
        let mut cs = self.slice(pc, &cj);
        let r = self.z.check(&mut cs, true);
        let ok = match r { Res::Sat(_) => expect, Res::Unsat => !expect, Res::Unknown => true };
        if !ok { eprintln!("engine error: table decision disagrees with Z3"); std::process::exit(99); }
    }
    fn add(&mut self, pc: &mut Pc, cond: u32, patch: &[(u32, u64)]) {
        pc.ensure();
        let mut cj = vec![];
        conjuncts(cond, &mut cj);
        for c in cj {
            if const_val(c).is_some() { continue; }
            if let (Some(v), Some(t)) = (one_var(c), &n(c).tab) {
                let d = &mut pc.dom[v as usize];
                for i in 0..256 { if t.get(i) == 0 { d[i / 64] &= !(1 << (i % 64)); } }
            } else if !pc.multi.contains(&c) {
                for v in sup(c).iter() { pc.ent[*v as usize] = true; }
                pc.multi.push(c);
            }
        }
        for (v, x) in patch { pc.model[*v as usize] = *x; }
    }
    /// Full check of a property assertion: is pc /\ not cond satisfiable?  Always decided by Z3.
    fn refute(&mut self, pc: &mut Pc, cond: u32) -> Res_<Option<Vec<(u32, u64)>>> {
        pc.ensure();
        let nc = not1(cond);
        let mut cj = vec![];
        conjuncts(nc, &mut cj);
        let mut cs = self.slice(pc, &cj);
        match self.z.check(&mut cs, false) { Res::Sat(m) => Ok(Some(m)), Res::Unsat => Ok(None), Res::Unknown => Err(Stop::Bad("solver: unknown on assertion".into())) }
    }
    /// Make a value concrete by forking over all its feasible values.
    fn conc(&mut self, st: &mut State, v: &V) -> Res_<u64> {
        let e = match v { V::C(c) => return Ok(*c), V::E(e) => *e, V::A(_) => return Err(Stop::Bad("concretise aggregate".into())) };
        if let Some(k) = const_val(e) { return Ok(k as u64); }
        let w = n(e).w;
        st.pc.ensure();
        let mut vals: Vec<(u64, Vec<(u32, u64)>)> = vec![];
        let ov = one_var(e);
        if let (Some(v), Some(t), false) = (ov, &n(e).tab, ov.map_or(true, |v| st.pc.ent[v as usize])) {
            let mut seen: FxMap<u64, u64> = FxMap::default();
            for i in 0..256 { if st.pc.has(v, i) { seen.entry(t.get(i)).or_insert(i as u64); } }
            let cur = st.pc.model[v as usize];
            let mut l: Vec<(u64, u64)> = seen.into_iter().collect();
            l.sort_unstable();
            for (val, wit) in l { vals.push((val, if t.get(cur as usize) == val { vec![] } else { vec![(v, wit)] })); }
            self.rep.dec_table += 1;
        } else {
            if self.trace { eprintln!("conc? {} at {}", show(e, 14), self.whereami(st)); }
            let mut block = konst(1, 1);
            let first = { let f = |v: u32| st.pc.val(v); eval(e, &f) as u64 };
            vals.push((first, vec![]));
            loop {
                let last = vals.last().unwrap().0;
                let ne = not1(bin(X::Eq, e, konst(w, last as u128)));
                block = and1(block, ne);
                if vals.len() > self.max_enum { return Err(Stop::Bad(format!("more than {} values to enumerate at {}", self.max_enum, self.whereami(st)))); }
                match self.feasible(&mut st.pc, block)? {
                    Some(p) => { let m: FxMap<u32, u64> = p.iter().copied().collect(); let x = { let f = |v: u32| m.get(&v).map(|x| *x as u128).unwrap_or_else(|| st.pc.val(v)); eval(e, &f) as u64 }; vals.push((x, p)); }
                    None => break,
                }
            }
        }
        if vals.is_empty() { return Err(Stop::Infeasible); }
        if self.trace && vals.len() > 1 { eprintln!("conc {} values of {} at {}", vals.len(), show(e, 14), self.whereami(st)); }
        for (val, patch) in vals.iter().skip(1) {
            let mut s2 = st.clone();
            let c = bin(X::Eq, e, konst(w, *val as u128));
            self.add(&mut s2.pc, c, patch);
            s2.depth += 1;
            self.rep.forks += 1;
            self.work.push_back(s2);
        }
        let (val, patch) = vals[0].clone();
        let c = bin(X::Eq, e, konst(w, val as u128));
        self.add(&mut st.pc, c, &patch);
        if vals.len() > 1 { st.depth += 1; }
        Ok(val)
    }

    // ---------------------------------------------------------------- memory
    fn oob(&self, st: &State, what: &str, a: u64) -> Stop { Stop::Viol("memory".into(), format!("{} at {:#x} in {}", what, a, self.whereami(st))) }
    fn rd(&self, st: &State, a: u64, nb: u32) -> Res_<V> {
        let o = match st.mem.get(a) { Some(o) => o, None => return Err(self.oob(st, "read of invalid address", a)) };
        let off = (a & 0xffff_ffff) as usize;
        let nbu = nb as usize;
        if off + nbu > o.data.len() { return Err(self.oob(st, "out-of-bounds read", a)); }
        if let Some(s) = &o.sym {
            if s[off..off + nbu].iter().any(|x| *x != 0) {
                let b = |i: usize| if s[off + i] != 0 { s[off + i] } else { konst(8, o.data[off + i] as u128) };
                let mut acc = b(0);
                for i in 1..nbu { acc = concat(b(i), acc); }
                return Ok(from_e(acc));
            }
        }
        if nb <= 8 { let mut x = [0u8; 8]; x[..nbu].copy_from_slice(&o.data[off..off + nbu]); Ok(V::C(u64::from_le_bytes(x))) }
        else { let mut x = [0u8; 16]; x[..nbu].copy_from_slice(&o.data[off..off + nbu]); Ok(V::E(konst(nb * 8, u128::from_le_bytes(x)))) }
    }
    fn load(&self, st: &State, a: u64, t: &Ty) -> Res_<V> {
        match t {
            Ty::Ptr | Ty::F64 => self.rd(st, a, 8),
            Ty::F32 => self.rd(st, a, 4),
            Ty::Int(w) => {
                let v = self.rd(st, a, (w + 7) / 8)?;
                if w % 8 == 0 { return Ok(v); }
                Ok(match v { V::C(c) => V::C(c & mask64(*w)), V::E(e) => from_e(extract(e, w - 1, 0)), v => v })
            }
            Ty::Arr(..) | Ty::St(..) | Ty::Vec(..) => { let mut r = vec![]; for i in 0..t.nfields() { r.push(self.load(st, a + t.field_off(i as u64), &t.field_ty(i as u64))?); } Ok(V::A(Rc::new(r))) }
            _ => Err(Stop::Bad("load type".into())),
        }
    }
    fn store(&self, st: &mut State, a: u64, t: &Ty, v: &V) -> Res_<()> {
        match (t, v) {
            (_, V::A(vs)) => { for i in 0..t.nfields() { self.store(st, a + t.field_off(i as u64), &t.field_ty(i as u64), &vs[i])?; } Ok(()) }
            _ => {
                let w = t.bits();
                let nb = ((w + 7) / 8) as usize;
                let off = (a & 0xffff_ffff) as usize;
                let bad = match st.mem.get(a) { None => Some("write to invalid address"), Some(o) => if o.ro { Some("write to constant") } else if off + nb > o.data.len() { Some("out-of-bounds write") } else { None } };
                if let Some(b) = bad { return Err(self.oob(st, b, a)); }
                let o = st.mem.get_mut(a).unwrap();
                match v {
                    V::C(c) => { o.data[off..off + nb].copy_from_slice(&c.to_le_bytes()[..nb]); if let Some(s) = &mut o.sym { for x in &mut s[off..off + nb] { *x = 0; } } }
                    V::E(e) => {
                        let e = if w % 8 != 0 { zext(*e, nb as u32 * 8) } else { *e };
                        if let Some(k) = const_val(e) { o.data[off..off + nb].copy_from_slice(&k.to_le_bytes()[..nb]); if let Some(s) = &mut o.sym { for x in &mut s[off..off + nb] { *x = 0; } } return Ok(()); }
                        let len = o.data.len();
                        let s = o.sym.get_or_insert_with(|| vec![0; len]);
                        for i in 0..nb { let b = extract(e, i as u32 * 8 + 7, i as u32 * 8); if let Some(k) = const_val(b) { o.data[off + i] = k as u8; s[off + i] = 0; } else { s[off + i] = b; } }
                    }
                    _ => unreachable!(),
                }
                Ok(())
            }
        }
    }
    fn bytes(&self, st: &State, a: u64, len: u64) -> Res_<Vec<(u8, u32)>> {
        if len == 0 { return Ok(vec![]); }
        let o = match st.mem.get(a) { Some(o) => o, None => return Err(self.oob(st, "read of invalid address", a)) };
        let off = (a & 0xffff_ffff) as usize;
        let l = len as usize;
        if off.saturating_add(l) > o.data.len() { return Err(self.oob(st, "out-of-bounds read", a)); }
        Ok(match &o.sym { None => o.data[off..off + l].iter().map(|b| (*b, 0)).collect(), Some(s) => (0..l).map(|i| (o.data[off + i], s[off + i])).collect() })
    }
    fn memcpy(&self, st: &mut State, d: u64, s: u64, len: u64) -> Res_<()> {
        if len == 0 { return Ok(()); }
        let src = match st.mem.get(s) { Some(o) => o.clone(), None => return Err(self.oob(st, "memcpy from invalid address", s)) };
        let (so, dof, l) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize, len as usize);
        if so.saturating_add(l) > src.data.len() { return Err(self.oob(st, "out-of-bounds memcpy source", s)); }
        match st.mem.get(d) { None => return Err(self.oob(st, "memcpy to invalid address", d)), Some(o) => if o.ro || dof.saturating_add(l) > o.data.len() { return Err(self.oob(st, "out-of-bounds memcpy destination", d)); } }
        let o = st.mem.get_mut(d).unwrap();
        o.data[dof..dof + l].copy_from_slice(&src.data[so..so + l]);
        match &src.sym {
            Some(ss) if ss[so..so + l].iter().any(|x| *x != 0) => { let len = o.data.len(); let ds = o.sym.get_or_insert_with(|| vec![0; len]); ds[dof..dof + l].copy_from_slice(&ss[so..so + l]); }
            _ => if let Some(ds) = &mut o.sym { for x in &mut ds[dof..dof + l] { *x = 0; } },
        }
        Ok(())
    }
    fn alloc(&self, st: &mut State, size: u64) -> Res_<u64> {
        if size > 64 << 20 { return Err(Stop::Bad(format!("allocation of {} bytes", size))); }
        Ok(st.mem.alloc(Obj { data: vec![0; size as usize], sym: None, ro: false }))
    }
    fn ptr(&mut self, st: &mut State, v: &V) -> Res_<u64> { self.conc(st, v) }
    /// Load through a pointer that may be symbolic.
    fn load_any(&mut self, st: &mut State, p: &V, t: &Ty) -> Res_<V> {
        if let Some(v) = self.load_sym(st, p, t)? { return Ok(v); }
        let a = self.conc(st, p)?;
        self.load(st, a, t)
    }
    fn load_sym(&mut self, st: &mut State, p: &V, t: &Ty) -> Res_<Option<V>> {
        let e = match p { V::C(a) => return self.load(st, *a, t).map(Some), V::E(e) => *e, _ => return Err(Stop::Bad("load".into())) };
        if let Some(k) = const_val(e) { return self.load(st, k as u64, t).map(Some); }
        let w = match t { Ty::Int(w) if *w <= 64 => *w, Ty::Ptr => 64, _ => 0 };
        if w > 0 {
            st.pc.ensure();
            let ov = one_var(e);
            if let (Some(v), Some(tb)) = (ov, n(e).tab.clone()) {
                let mut out = [0u64; 256];
                let mut fill: Option<u64> = None;
                let mut ok = true;
                let mut vals: FxMap<u64, u64> = FxMap::default();
                for i in 0..256 {
                    if !st.pc.has(v, i) { continue; }
                    let a = tb.get(i);
                    let x = match vals.get(&a) { Some(x) => *x, None => match self.load(st, a, t) { Ok(V::C(x)) => { vals.insert(a, x); x } _ => { ok = false; break; } } };
                    out[i] = x;
                    fill.get_or_insert(x);
                }
                if ok && fill.is_some() {
                    for i in 0..256 { if !st.pc.has(v, i) { out[i] = fill.unwrap(); } }
                    return Ok(Some(from_e(expr::tab(cx().vars[v as usize].node, w, &out))));
                }
            } else {
                let (lo, hi) = (n(e).lo, n(e).hi);
                if hi - lo < 256 && lo >> 32 == hi >> 32 {
                    if let Some(o) = st.mem.get(lo).cloned() {
                        let nb = ((w + 7) / 8) as u64;
                        let conc = o.sym.is_none();
                        let base = lo;
                        let end = o.data.len() as u64;
                        if conc {
                            let inb = hi & 0xffff_ffff;
                            let mut ok = true;
                            if inb + nb > end { // must be proved in bounds
                                let bad = bin(X::Ult, konst(64, ((lo >> 32) << 32 | (end - nb)) as u128), e);
                                ok = self.feasible(&mut st.pc, bad)?.is_none();
                            }
                            if ok {
                                let mut out = [0u64; 256];
                                for i in 0..=(hi - lo) { if let Ok(V::C(x)) = self.load(st, base + i, t) { out[i as usize] = x; } }
                                let d = bin(X::Sub, e, konst(64, base as u128));
                                let idx = extract(d, 7, 0);
                                return Ok(Some(from_e(expr::tab(idx, w, &out))));
                            }
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    // ---------------------------------------------------------------- values
    #[inline] fn val(&self, st: &State, o: &Op) -> V { match o { Op::R(r) => unsafe { st.cur.regs.get_unchecked(*r as usize).clone() }, Op::K(v) => v.clone() } }
    #[inline] fn set(&self, st: &mut State, d: u32, v: V) { if d != u32::MAX { st.cur.regs[d as usize] = v; } }
    pub fn whereami(&self, st: &State) -> String {
        let mut s = st.cur.f.name.clone();
        for f in st.stack.iter().rev().take(4) { s.push_str(" < "); s.push_str(&f.f.name); }
        s
    }
    pub fn fullstack(&self, st: &State) -> Vec<String> { let mut v = vec![st.cur.f.name.clone()]; for f in st.stack.iter().rev() { v.push(f.f.name.clone()); } v }

    fn binop(&mut self, st: &mut State, b: B, t: &Ty, x: &V, y: &V) -> Res_<V> {
        if let (V::A(p), V::A(q)) = (x, y) {
            let et = t.field_ty(0);
            let mut r = vec![];
            for i in 0..p.len() { r.push(self.binop(st, b, &et, &p[i], &q[i])?); }
            return Ok(V::A(Rc::new(r)));
        }
        if matches!(b, B::FAdd | B::FSub | B::FMul | B::FDiv) {
            let (p, q) = (f64::from_bits(self.conc(st, x)?), f64::from_bits(self.conc(st, y)?));
            return Ok(V::C(match b { B::FAdd => p + q, B::FSub => p - q, B::FMul => p * q, _ => p / q }.to_bits()));
        }
        let w = t.bits();
        if let (V::C(p), V::C(q)) = (x, y) {
            let (p, q) = (*p, *q);
            let m = mask64(w);
            let r = match b {
                B::Add => p.wrapping_add(q), B::Sub => p.wrapping_sub(q), B::Mul => p.wrapping_mul(q), B::And => p & q, B::Or => p | q, B::Xor => p ^ q,
                B::Shl => if q >= w as u64 { 0 } else { p << q }, B::LShr => if q >= w as u64 { 0 } else { p >> q }, B::AShr => (sx(p, w) >> q.min(w as u64 - 1)) as u64,
                B::UDiv => { if q == 0 { return Err(Stop::Bad("udiv 0".into())); } p / q } B::URem => { if q == 0 { return Err(Stop::Bad("urem 0".into())); } p % q }
                B::SDiv => { if q == 0 { return Err(Stop::Bad("sdiv 0".into())); } sx(p, w).wrapping_div(sx(q, w)) as u64 } B::SRem => { if q == 0 { return Err(Stop::Bad("srem 0".into())); } sx(p, w).wrapping_rem(sx(q, w)) as u64 }
                _ => unreachable!(),
            };
            return Ok(V::C(r & m));
        }
        let (p, q) = (to_e(x, w), to_e(y, w));
        let op = match b { B::Add => X::Add, B::Sub => X::Sub, B::Mul => X::Mul, B::And => X::And, B::Or => X::Or, B::Xor => X::Xor, B::Shl => X::Shl, B::LShr => X::LShr, B::AShr => X::AShr, B::UDiv => X::UDiv, B::URem => X::URem, B::SDiv => X::SDiv, B::SRem => X::SRem, _ => unreachable!() };
        Ok(from_e(bin(op, p, q)))
    }
    fn cmp(&mut self, p: P, t: &Ty, x: &V, y: &V) -> V {
        if let (V::A(a), V::A(b)) = (x, y) { let et = t.field_ty(0); return V::A(Rc::new((0..a.len()).map(|i| self.cmp(p, &et, &a[i], &b[i])).collect())); }
        let w = t.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            return V::C(match p { P::Eq => a == b, P::Ne => a != b, P::Ugt => a > b, P::Uge => a >= b, P::Ult => a < b, P::Ule => a <= b, P::Sgt => sa > sb, P::Sge => sa >= sb, P::Slt => sa < sb, P::Sle => sa <= sb } as u64);
        }
        let (a, b) = (to_e(x, w), to_e(y, w));
        from_e(match p { P::Eq => bin(X::Eq, a, b), P::Ne => not1(bin(X::Eq, a, b)), P::Ugt => bin(X::Ult, b, a), P::Uge => bin(X::Ule, b, a), P::Ult => bin(X::Ult, a, b), P::Ule => bin(X::Ule, a, b), P::Sgt => bin(X::Slt, b, a), P::Sge => bin(X::Sle, b, a), P::Slt => bin(X::Slt, a, b), P::Sle => bin(X::Sle, a, b) })
    }
    fn cast(&mut self, st: &mut State, c: C, t: &Ty, x: &V, t2: &Ty) -> Res_<V> {
        if c == C::Bit {
            // flatten to bits and rebuild
            if t == t2 || !matches!(t, Ty::Vec(..)) && !matches!(t2, Ty::Vec(..)) { return Ok(x.clone()); }
            let e = match (t, x) { (Ty::Vec(_, et), V::A(vs)) => { let w = et.bits(); let mut acc = to_e(&vs[0], w); for v in vs.iter().skip(1) { acc = concat(to_e(v, w), acc); } acc } _ => to_e(x, t.bits()) };
            return Ok(match t2 { Ty::Vec(nn, et) => { let w = et.bits(); V::A(Rc::new((0..*nn).map(|i| from_e(extract(e, i * w + w - 1, i * w))).collect())) } _ => from_e(e) });
        }
        if let V::A(vs) = x { let (a, b) = (t.field_ty(0), t2.field_ty(0)); let mut r = vec![]; for v in vs.iter() { r.push(self.cast(st, c, &a, v, &b)?); } return Ok(V::A(Rc::new(r))); }
        match c {
            C::UiToFp => { let v = self.conc(st, x)?; return Ok(V::C((v as f64).to_bits())); }
            C::SiToFp => { let v = self.conc(st, x)?; return Ok(V::C((sx(v, t.bits()) as f64).to_bits())); }
            C::FpToUi => { let v = self.conc(st, x)?; return Ok(V::C(f64::from_bits(v) as u64 & mask64(t2.bits()))); }
            C::FpToSi => { let v = self.conc(st, x)?; return Ok(V::C(f64::from_bits(v) as i64 as u64 & mask64(t2.bits()))); }
            C::FpExt | C::FpTrunc => return Err(Stop::Bad("fp cast".into())),
            _ => {}
        }
        let (w, w2) = (t.bits(), t2.bits());
        if let V::C(k) = x {
            if w2 <= 64 { return Ok(V::C(match c { C::Trunc => k & mask64(w2), C::ZExt => *k, _ => sx(*k, w) as u64 & mask64(w2) })); }
        }
        let e = to_e(x, w);
        Ok(from_e(match c { C::Trunc => extract(e, w2 - 1, 0), C::ZExt => zext(e, w2), _ => sext(e, w2) }))
    }

    // ---------------------------------------------------------------- merging
    /// May this block be evaluated without touching memory or ending the path?
    fn pure(&mut self, b: &'static Block) -> bool {
        let key = b as *const Block as usize;
        if let Some(x) = self.pure_blk.get(&key) { return *x; }
        let r = b.ins.len() <= 40 && b.ins.iter().all(|i| match i {
            I::Bin(op, t, ..) => matches!(t, Ty::Int(_)) && !matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem | B::FAdd | B::FSub | B::FMul | B::FDiv),
            I::Cmp(_, t, ..) => !matches!(t, Ty::Vec(..)),
            I::Cast(c, t, _, t2, _) => matches!(t, Ty::Int(_)) && matches!(t2, Ty::Int(_)) && matches!(c, C::Trunc | C::ZExt | C::SExt),
            I::Copy(..) | I::Gep(..) | I::Br(_) | I::CBr(..) | I::Switch(..) => true,
            I::Load(t, ..) => matches!(t, Ty::Int(_) | Ty::Ptr),
            I::Select(t, _, _, _, _, vc) => !vc && matches!(t, Ty::Int(_) | Ty::Ptr),
            I::Call { callee: Callee::Ext(i) | Callee::Fn(i), args, .. } => matches!(self.kinds[*i as usize], K::Nop | K::Assume | K::Umax | K::Umin | K::Smax | K::Smin | K::Ctpop | K::UaddSat | K::UsubSat | K::AddO(_) | K::SubO(_)) && args.iter().all(|a| !matches!(a.0, Ty::Vec(..))),
            _ => false,
        });
        self.pure_blk.insert(key, r);
        r
    }
    /// Evaluate one non-terminator of a pure block in `st.cur`; the defined register and its width (0: not an integer that may be merged).
    fn pure_ins(&mut self, st: &mut State, ins: &'static I) -> Res_<Option<(u32, u32)>> {
        let iw = |t: &Ty| if let Ty::Int(w) = t { *w } else { 0 };
        Ok(match ins {
            I::Bin(b, t, x, y, d) => { let (p, q) = (self.val(st, x), self.val(st, y)); let v = self.binop(st, *b, t, &p, &q)?; self.set(st, *d, v); Some((*d, iw(t))) }
            I::Cmp(p, t, x, y, d) => { let (a, b) = (self.val(st, x), self.val(st, y)); let v = self.cmp(*p, t, &a, &b); self.set(st, *d, v); Some((*d, 1)) }
            I::Cast(c, t, x, t2, d) => { let a = self.val(st, x); let v = self.cast(st, *c, t, &a, t2)?; self.set(st, *d, v); Some((*d, iw(t2))) }
            I::Copy(x, d) => { let a = self.val(st, x); self.set(st, *d, a); Some((*d, 0)) }
            I::Load(t, p, d) => { let a = self.val(st, p); match self.load_sym(st, &a, t)? { Some(v) => self.set(st, *d, v), None => return Err(Stop::Refork) } Some((*d, iw(t))) }
            I::Gep(b, off, terms, d) => {
                let mut acc = match self.val(st, b) { V::C(a) => a.wrapping_add(*off as u64), _ => return Err(Stop::Refork) };
                for (o, sc, w) in terms { match self.val(st, o) { V::C(k) => acc = acc.wrapping_add((sx(k, *w) as u64).wrapping_mul(*sc)), _ => return Err(Stop::Refork) } }
                self.set(st, *d, V::C(acc));
                Some((*d, 0))
            }
            I::Select(t, c, a, b, d, _) => {
                let cv = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match vconst(&cv) { Some(k) => if k & 1 != 0 { x } else { y }, None => { let w = t.bits(); if matches!(t, Ty::Ptr) || matches!(x, V::A(_)) { return Err(Stop::Refork); } from_e(ite(to_e(&cv, 1), to_e(&x, w), to_e(&y, w))) } };
                self.set(st, *d, r);
                Some((*d, iw(t)))
            }
            I::Call { callee: Callee::Ext(i) | Callee::Fn(i), args, dst, ret } => {
                let av: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
                let k = self.kinds[*i as usize];
                let r = self.builtin(st, k, *i, args, &av, ret)?;
                if let Some(v) = r { self.set(st, *dst, v); }
                if *dst == u32::MAX { None } else { Some((*dst, iw(ret))) }
            }
            _ => return Err(Stop::Refork),
        })
    }
    /// Symbolic branches ending at a common block without side effects become one state with merged registers.
    fn try_merge(&mut self, st: &mut State, tg: &[(u32, u32, Vec<(u32, u64)>)]) -> Res_<bool> {
        if self.no_merge || tg.iter().any(|t| one_var(t.0).is_none()) { return Ok(false); }
        let f: &'static Func = st.cur.f;
        let p = st.cur.block;
        let key = &f.blocks[p as usize] as *const Block as usize;
        let stat = *self.merge_stat.get(&key).unwrap_or(&(0, 0));
        if stat.0 >= 16 && stat.1 * 8 < stat.0 && stat.0 & 63 != 0 { self.merge_stat.insert(key, (stat.0 + 1, stat.1)); return Ok(false); }
        let mut seen: Vec<(u32, u32)> = vec![];
        let r0 = self.explore(st, tg, p, u32::MAX, &mut seen);
        let mut best: Option<Vec<Vec<El>>> = None;
        if r0.is_some() || true {
            let cand: Vec<u32> = std::iter::once(u32::MAX).chain(seen.iter().filter(|x| x.1 >= 2).map(|x| x.0).take(6)).collect();
            for j in cand {
                let mut s2 = vec![];
                if let Some(els) = self.explore(st, tg, p, j, &mut s2) {
                    let ne = els.len();
                    let g = group(els);
                    if g.len() < ne && best.as_ref().map_or(true, |b| g.len() < b.len()) { best = Some(g); }
                }
            }
        }
        self.merge_stat.insert(key, (stat.0 + 1, stat.1 + best.is_some() as u32));
        let groups = match best { Some(g) => g, None => return Ok(false) };
        if self.trace { eprintln!("merge {} -> {} at {}", groups.iter().map(|g| g.len()).sum::<usize>(), groups.len(), self.whereami(st)); }
        self.rep.merges += 1;
        let ng = groups.len();
        let base_pc = if ng > 1 { Some(st.clone()) } else { None };
        for (gi, g) in groups.into_iter().enumerate() {
            let mut s2 = if gi == 0 { None } else { Some(base_pc.clone().unwrap()) };
            let t: &mut State = match &mut s2 { Some(s) => s, None => st };
            let cond = g.iter().skip(1).fold(g[0].cond, |a, e| or1(a, e.cond));
            self.add(&mut t.pc, cond, &g[0].patch);
            let mut regs = g[0].regs.clone();
            for (r, w) in &g[0].defs {
                if g.iter().skip(1).any(|e| !e.defs.iter().any(|d| d.0 == *r)) { continue; }
                let last = g.last().unwrap();
                let mut v = last.regs[*r as usize].clone();
                for e in g.iter().rev().skip(1) { let x = &e.regs[*r as usize]; if !veq(x, &v) { v = from_e(ite(e.cond, to_e(x, *w), to_e(&v, *w))); } }
                regs[*r as usize] = v;
            }
            t.cur.regs = regs;
            t.cur.prev = g[0].prev;
            t.cur.block = g[0].block;
            t.cur.ip = 0;
            if ng > 1 { t.depth += 1; }
            if let Some(s) = s2 { self.rep.forks += 1; self.work.push_back(s); }
        }
        Ok(true)
    }
    fn explore(&mut self, st: &mut State, tg: &[(u32, u32, Vec<(u32, u64)>)], p: u32, j: u32, seen: &mut Vec<(u32, u32)>) -> Option<Vec<El>> {
        let f: &'static Func = st.cur.f;
        let save = (st.cur.regs.clone(), st.cur.block, st.cur.prev, st.cur.ip);
        let mut work: Vec<El> = vec![];
        let mut done: Vec<El> = vec![];
        let mut fail = false;
        let enter = |me: &mut Engine, st: &mut State, e: &El, cond: u32, patch: Vec<(u32, u64)>, b: u32, seen: &mut Vec<(u32, u32)>| -> Option<El> {
            match seen.iter_mut().find(|x| x.0 == b) { Some(x) => x.1 += 1, None => seen.push((b, 1)) }
            st.cur.regs = e.regs.clone();
            st.cur.block = e.block;
            if me.goto(st, b).is_err() { return None; }
            let mut defs = e.defs.clone();
            for (d, _, t) in &f.blocks[b as usize].phis { let w = if let Ty::Int(w) = t { *w } else { 0 }; match defs.iter_mut().find(|x| x.0 == *d) { Some(x) => x.1 = w, None => defs.push((*d, w)) } }
            Some(El { cond, patch, regs: std::mem::take(&mut st.cur.regs), block: b, prev: e.block, defs })
        };
        let root = El { cond: konst(1, 1), patch: vec![], regs: save.0.clone(), block: p, prev: save.2, defs: vec![] };
        for (c, b, pt) in tg.iter().rev() { match enter(self, st, &root, *c, pt.clone(), *b, seen) { Some(e) => work.push(e), None => fail = true } }
        let mut budget = 32;
        while let Some(e) = work.pop() {
            if fail { break; }
            let blk: &'static Block = &f.blocks[e.block as usize];
            if e.block == j || e.block == p || !self.pure(blk) { done.push(e); continue; }
            if budget == 0 { fail = true; break; }
            budget -= 1;
            let mut e = e;
            st.cur.regs = std::mem::take(&mut e.regs);
            let mut bad = false;
            for ins in &blk.ins[..blk.ins.len() - 1] {
                match self.pure_ins(st, ins) { Ok(Some((d, w))) => match e.defs.iter_mut().find(|x| x.0 == d) { Some(x) => x.1 = w, None => e.defs.push((d, w)) }, Ok(None) => {} Err(_) => { bad = true; break; } }
            }
            if bad { fail = true; break; }
            let mut outs: Vec<(u32, u32, Vec<(u32, u64)>)> = vec![];
            match blk.ins.last().unwrap() {
                I::Br(b) => outs.push((e.cond, *b, e.patch.clone())),
                I::CBr(c, t, fb) => {
                    let v = self.val(st, c);
                    match vconst(&v) {
                        Some(k) => outs.push((e.cond, if k & 1 != 0 { *t } else { *fb }, e.patch.clone())),
                        None => { let c = to_e(&v, 1); if one_var(c).is_none() { fail = true; break; } for (cc, b) in [(c, *t), (not1(c), *fb)] { let x = and1(e.cond, cc); match self.feasible(&mut st.pc, x) { Ok(Some(p)) => outs.push((x, b, p)), Ok(None) => {} Err(_) => fail = true } } }
                    }
                }
                I::Switch(t, c, def, cases) => {
                    let v = self.val(st, c);
                    let w = t.bits();
                    match vconst(&v) {
                        Some(k) => { let b = cases.iter().find(|x| x.0 as u64 == k).map_or(*def, |x| x.1); outs.push((e.cond, b, e.patch.clone())) }
                        None => {
                            let ex = to_e(&v, w);
                            if one_var(ex).is_none() { fail = true; break; }
                            let mut groups: Vec<(u32, u32)> = vec![];
                            let mut nd = konst(1, 1);
                            for (k, b) in cases { let c = bin(X::Eq, ex, konst(w, *k)); if *b == *def { continue; } nd = and1(nd, not1(c)); match groups.iter_mut().find(|g| g.0 == *b) { Some(g) => g.1 = or1(g.1, c), None => groups.push((*b, c)) } }
                            groups.push((*def, nd));
                            for (b, c) in groups { let x = and1(e.cond, c); match self.feasible(&mut st.pc, x) { Ok(Some(p)) => outs.push((x, b, p)), Ok(None) => {} Err(_) => fail = true } }
                        }
                    }
                }
                _ => fail = true,
            }
            e.regs = std::mem::take(&mut st.cur.regs);
            for (c, b, pt) in outs { match enter(self, st, &e, c, pt, b, seen) { Some(x) => work.push(x), None => fail = true } }
            if work.len() + done.len() > 24 { fail = true; }
        }
        st.cur.regs = save.0;
        st.cur.block = save.1;
        st.cur.prev = save.2;
        st.cur.ip = save.3;
        if fail { None } else { Some(done) }
    }

    fn goto(&mut self, st: &mut State, b: u32) -> Res_<()> {
        let fr = &mut st.cur;
        fr.prev = fr.block;
        fr.block = b;
        fr.ip = 0;
        let blk = &fr.f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let prev = fr.prev;
            if blk.phis.len() == 1 {
                let (d, inc, _) = &blk.phis[0];
                let o = &inc.iter().find(|x| x.0 == prev).ok_or_else(|| Stop::Bad("phi".into()))?.1;
                let v = match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() };
                fr.regs[*d as usize] = v;
            } else {
                let mut tmp: Vec<V> = Vec::with_capacity(blk.phis.len());
                for (_, inc, _) in &blk.phis { let o = &inc.iter().find(|x| x.0 == prev).ok_or_else(|| Stop::Bad("phi".into()))?.1; tmp.push(match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() }); }
                for ((d, _, _), v) in blk.phis.iter().zip(tmp) { fr.regs[*d as usize] = v; }
            }
        }
        Ok(())
    }

    pub fn witness(&self, st: &State) -> Witness {
        let pc = &st.pc;
        let f = |v: u32| pc.val(v);
        let mut w = Witness::default();
        for i in &st.inputs {
            w.inputs.push(match i {
                Input::Bytes(nm, vs) => (nm.clone(), "bytes".into(), vs.iter().map(|v| format!("{:02x}", f(*v) as u8)).collect()),
                Input::U64(nm, v) => (nm.clone(), "u64".into(), format!("{}", f(*v))),
                Input::Choice(nm, v) => (nm.clone(), "choice".into(), format!("{}", v)),
            });
        }
        for p in &st.prints { let mut memo = FxMap::default(); w.prints.push(p.iter().map(|(b, e)| if *e != 0 { eval_m(*e, &f, &mut memo) as u8 } else { *b }).collect()); }
        w.reaches = st.reaches.iter().map(|r| self.reach_names[*r as usize].clone()).collect();
        w
    }

    /// Run one state until it ends; forks go to `self.work`.
    pub fn run(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = self.run_(&mut st);
        self.rep.steps += st.steps - s0;
        self.rep.max_depth = self.rep.max_depth.max(st.depth);
        match r {
            Ok(()) | Err(Stop::Done) => {
                self.rep.paths += 1;
                for i in st.reaches.clone() {
                    let nm = self.reach_names[i as usize].clone();
                    let need = self.rep.reach.get(&nm).map_or(true, |x| x.1.is_none());
                    let w = if need { Some(self.witness(&st)) } else { None };
                    let e = self.rep.reach.entry(nm).or_insert((0, None));
                    e.0 += 1;
                    if need { e.1 = w; }
                }
                // a deterministic spread of paths becomes replay witnesses
                if self.rep.path_wit.len() < self.nwit && (self.rep.paths & (self.rep.paths - 1)) == 0 { let w = self.witness(&st); self.rep.path_wit.push(w); }
            }
            Err(Stop::Infeasible) => self.rep.infeasible += 1,
            Err(Stop::Refork) => {}
            Err(Stop::Bad(m)) => { self.rep.paths += 1; let w = self.witness(&st); if self.rep.incomplete.len() < 20 { self.rep.incomplete.push(format!("{} [{}] inputs={:?}", m, self.whereami(&st), w.inputs)); } }
            Err(Stop::Viol(k, d)) => {
                self.rep.paths += 1;
                let w = self.witness(&st);
                let same = self.rep.viols.iter().filter(|v| v.0 == k && v.1 == d).count();
                if same < self.max_viol && self.rep.viols.len() < 40 { self.rep.viols.push((k, d, w)); }
            }
        }
    }

    fn run_(&mut self, st: &mut State) -> Res_<()> {
        loop {
            let blk: &'static Block = unsafe { &*(&st.cur.f.blocks[st.cur.block as usize] as *const Block) };
            let ins = &blk.ins[st.cur.ip as usize];
            st.steps += 1;
            if st.steps & 0xfff == 0 {
                if Instant::now() > self.deadline { return Err(Stop::Bad("time limit".into())); }
                if st.steps > self.max_steps { return Err(Stop::Bad("step limit (unbounded loop?)".into())); }
            }
            match ins {
                I::Bin(b, t, x, y, d) => {
                    let (p, q) = (self.val(st, x), self.val(st, y));
                    // division by a symbolic value that may be zero is UB; rustc guards it
                    let v = self.binop(st, *b, t, &p, &q)?;
                    self.set(st, *d, v);
                }
                I::Cmp(p, t, x, y, d) => { let (a, b) = (self.val(st, x), self.val(st, y)); let v = self.cmp(*p, t, &a, &b); self.set(st, *d, v); }
                I::FCmp(p, x, y, d) => {
                    let (a, b) = (self.val(st, x), self.val(st, y));
                    let (a, b) = (f64::from_bits(self.conc(st, &a)?), f64::from_bits(self.conc(st, &b)?));
                    let un = a.is_nan() || b.is_nan();
                    let r = match p.as_str() { "oeq" => a == b, "ogt" => a > b, "oge" => a >= b, "olt" => a < b, "ole" => a <= b, "one" => !un && a != b, "ord" => !un, "ueq" => un || a == b, "ugt" => un || a > b, "uge" => un || a >= b, "ult" => un || a < b, "ule" => un || a <= b, "une" => un || a != b, "uno" => un, _ => return Err(Stop::Bad("fcmp".into())) };
                    self.set(st, *d, V::C(r as u64));
                }
                I::FNeg(x, d) => { let a = self.val(st, x); let a = self.conc(st, &a)?; self.set(st, *d, V::C((-f64::from_bits(a)).to_bits())); }
                I::Cast(c, t, x, t2, d) => { let a = self.val(st, x); let v = self.cast(st, *c, t, &a, t2)?; self.set(st, *d, v); }
                I::Copy(x, d) => { let a = self.val(st, x); self.set(st, *d, a); }
                I::Load(t, p, d) => { let a = self.val(st, p); let v = self.load_any(st, &a, t)?; self.set(st, *d, v); }
                I::Store(t, v, p) => { let a = self.val(st, p); let a = self.ptr(st, &a)?; let v = self.val(st, v); self.store(st, a, t, &v)?; }
                I::Gep(b, off, terms, d) => {
                    let base = self.val(st, b);
                    let mut acc = base;
                    if *off != 0 { acc = match acc { V::C(a) => V::C(a.wrapping_add(*off as u64)), v => from_e(bin(X::Add, to_e(&v, 64), konst(64, *off as u64 as u128))) }; }
                    for (o, sc, w) in terms {
                        let i = self.val(st, o);
                        acc = match (&acc, &i) {
                            (V::C(a), V::C(k)) => V::C(a.wrapping_add((sx(*k, *w) as u64).wrapping_mul(*sc))),
                            _ => { let e = sext(to_e(&i, *w), 64); let m = bin(X::Mul, e, konst(64, *sc as u128)); from_e(bin(X::Add, to_e(&acc, 64), m)) }
                        };
                    }
                    self.set(st, *d, acc);
                }
                I::Alloca(sz, nn, d) => { let k = match nn { None => 1, Some(o) => { let v = self.val(st, o); self.conc(st, &v)? } }; let a = self.alloc(st, sz * k)?; st.cur.allocas.push(a); self.set(st, *d, V::C(a)); }
                I::Select(t, c, a, b, d, veccond) => {
                    let cv = self.val(st, c);
                    let r = if *veccond {
                        match (&cv, self.val(st, a), self.val(st, b)) {
                            (V::A(cs), V::A(x), V::A(y)) => { let w = t.field_ty(0).bits(); V::A(Rc::new((0..cs.len()).map(|i| from_e(ite(to_e(&cs[i], 1), to_e(&x[i], w), to_e(&y[i], w)))).collect())) }
                            _ => return Err(Stop::Bad("vector select".into())),
                        }
                    } else {
                        match vconst(&cv) {
                            Some(k) => self.val(st, if k & 1 != 0 { a } else { b }),
                            None => {
                                let (x, y) = (self.val(st, a), self.val(st, b));
                                match (&x, &y) {
                                    (V::A(_), _) | (_, V::A(_)) => { let k = self.conc(st, &cv)?; if k & 1 != 0 { x } else { y } }
                                    _ => { let w = t.bits(); from_e(ite(to_e(&cv, 1), to_e(&x, w), to_e(&y, w))) }
                                }
                            }
                        }
                    };
                    self.set(st, *d, r);
                }
                I::Extract(a, ix, d) => { let mut v = self.val(st, a); for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Bad("extractvalue".into())) }; } self.set(st, *d, v); }
                I::Insert(a, b, ix, d) => {
                    let v = self.val(st, a);
                    let x = self.val(st, b);
                    fn ins(v: &V, ix: &[u32], x: V) -> V { if ix.is_empty() { return x; } match v { V::A(r) => { let mut r = (**r).clone(); r[ix[0] as usize] = ins(&r[ix[0] as usize], &ix[1..], x); V::A(Rc::new(r)) } _ => panic!("insertvalue") } }
                    let r = ins(&v, ix, x);
                    self.set(st, *d, r);
                }
                I::ExtractEl(a, b, d) => { let v = self.val(st, a); let i = self.val(st, b); let i = self.conc(st, &i)?; let r = match &v { V::A(x) => x[i as usize].clone(), _ => return Err(Stop::Bad("extractelement".into())) }; self.set(st, *d, r); }
                I::InsertEl(a, b, c, d) => { let v = self.val(st, a); let x = self.val(st, b); let i = self.val(st, c); let i = self.conc(st, &i)?; let r = match &v { V::A(y) => { let mut y = (**y).clone(); y[i as usize] = x; V::A(Rc::new(y)) } _ => return Err(Stop::Bad("insertelement".into())) }; self.set(st, *d, r); }
                I::Shuffle(a, b, mask, d) => { let (x, y) = (self.val(st, a), self.val(st, b)); let r = match (&x, &y) { (V::A(p), V::A(q)) => V::A(Rc::new(mask.iter().map(|i| { let i = *i as usize; if i < p.len() { p[i].clone() } else { q[i - p.len()].clone() } }).collect())), _ => return Err(Stop::Bad("shuffle".into())) }; self.set(st, *d, r); }
                I::Br(b) => { self.goto(st, *b)?; continue; }
                I::CBr(c, t, f) => {
                    let v = self.val(st, c);
                    let k = match vconst(&v) {
                        Some(k) => k & 1 != 0,
                        None => {
                            let e = to_e(&v, 1);
                            let ne = not1(e);
                            let ft = self.feasible(&mut st.pc, e)?;
                            let ff = self.feasible(&mut st.pc, ne)?;
                            match (ft, ff) {
                                (Some(pt), Some(pf)) => {
                                    if self.try_merge(st, &[(e, *t, pt.clone()), (ne, *f, pf.clone())])? { continue; }
                                    let mut s2 = st.clone();
                                    self.add(&mut s2.pc, ne, &pf);
                                    s2.depth += 1;
                                    self.goto(&mut s2, *f)?;
                                    if self.trace { eprintln!("fork br at {}", self.whereami(st)); }
                                    self.work.push_back(s2);
                                    self.rep.forks += 1;
                                    self.add(&mut st.pc, e, &pt);
                                    st.depth += 1;
                                    true
                                }
                                (Some(_), None) => true,
                                (None, Some(_)) => false,
                                (None, None) => return Err(Stop::Bad("path condition unsatisfiable".into())),
                            }
                        }
                    };
                    self.goto(st, if k { *t } else { *f })?;
                    continue;
                }
                I::Switch(t, c, def, cases) => {
                    let v = self.val(st, c);
                    let w = t.bits();
                    if w <= 64 { if let Some(k) = vconst(&v) { let b = cases.iter().find(|x| x.0 as u64 == k).map_or(*def, |x| x.1); self.goto(st, b)?; continue; } }
                    let e = to_e(&v, w);
                    let mut groups: Vec<(u32, u32)> = vec![];
                    let mut nd = konst(1, 1);
                    for (k, b) in cases {
                        let c = bin(X::Eq, e, konst(w, *k));
                        if *b != *def { nd = and1(nd, not1(c)); }
                        if *b == *def { continue; }
                        match groups.iter_mut().find(|g| g.0 == *b) { Some(g) => g.1 = or1(g.1, c), None => groups.push((*b, c)) }
                    }
                    groups.push((*def, nd));
                    let mut fs = vec![];
                    for (b, c) in groups { if let Some(p) = self.feasible(&mut st.pc, c)? { fs.push((b, c, p)); } }
                    if fs.is_empty() { return Err(Stop::Bad("switch: no feasible target".into())); }
                    if fs.len() > 1 { let tg: Vec<_> = fs.iter().map(|(b, c, p)| (*c, *b, p.clone())).collect(); if self.try_merge(st, &tg)? { continue; } }
                    if self.trace && fs.len() > 1 { eprintln!("fork switch {} at {}", fs.len(), self.whereami(st)); }
                    for (b, c, p) in fs.iter().skip(1) { let mut s2 = st.clone(); self.add(&mut s2.pc, *c, p); s2.depth += 1; self.goto(&mut s2, *b)?; self.work.push_back(s2); self.rep.forks += 1; }
                    let (b, c, p) = fs[0].clone();
                    if fs.len() > 1 { st.depth += 1; }
                    self.add(&mut st.pc, c, &p);
                    self.goto(st, b)?;
                    continue;
                }
                I::Ret(v) => {
                    let r = v.as_ref().map(|o| self.val(st, o));
                    for a in std::mem::take(&mut st.cur.allocas) { st.mem.free(a); }
                    match st.stack.pop() {
                        None => return Err(Stop::Done),
                        Some(f) => {
                            let dst = st.cur.dst;
                            st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                            if let Some(v) = r { self.set(st, dst, v); }
                            st.cur.ip += 1;
                        }
                    }
                    continue;
                }
                I::Unreachable => return Err(Stop::Viol("unreachable".into(), format!("unreachable code reached in {}", self.whereami(st)))),
                I::Bad(s) => return Err(Stop::Bad(format!("unsupported instruction {}", s))),
                I::Call { callee, args, dst, ret } => {
                    let fid = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Ext(i) => *i,
                        Callee::Asm => { // cpuid
                            let z = parse::zero(ret);
                            self.set(st, *dst, z);
                            st.cur.ip += 1;
                            continue;
                        }
                        Callee::Dyn(o) => {
                            let v = self.val(st, o);
                            let a = self.conc(st, &v)?;
                            if a < FN_BASE || (a - FN_BASE) % 16 != 0 || ((a - FN_BASE) / 16) as usize >= self.m.funcs.len() { return Err(self.oob(st, "call of invalid address", a)); }
                            ((a - FN_BASE) / 16) as u32
                        }
                    };
                    let k = self.kinds[fid as usize];
                    if k == K::Defined {
                        let f = self.m.funcs[fid as usize].as_ref().unwrap();
                        self.rep.funcs.insert(fid);
                        if st.stack.len() > 400 { return Err(Stop::Bad("call depth".into())); }
                        let mut regs = vec![V::C(0); f.nregs as usize];
                        for (i, p) in f.params.iter().enumerate() { if let Some((_, o)) = args.get(i) { regs[*p as usize] = self.val(st, o); } }
                        let nf = Frame { f, fid, block: 0, ip: 0, prev: 0, regs, allocas: vec![], dst: *dst };
                        let old = std::mem::replace(&mut st.cur, nf);
                        st.stack.push(Rc::new(old));
                        continue;
                    }
                    let av: Vec<V> = args.iter().map(|(_, o)| self.val(st, o)).collect();
                    let r = self.builtin(st, k, fid, args, &av, ret)?;
                    if let Some(v) = r { self.set(st, *dst, v); }
                }
            }
            st.cur.ip += 1;
        }
    }

    fn name_arg(&mut self, st: &mut State, p: &V, l: &V) -> Res_<String> {
        let (a, l) = (self.conc(st, p)?, self.conc(st, l)?);
        let b = self.bytes(st, a, l)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned())
    }
    fn uniq(&self, st: &State, nm: &str) -> String {
        let used = |s: &str| st.inputs.iter().any(|i| match i { Input::Bytes(x, _) | Input::U64(x, _) | Input::Choice(x, _) => x == s });
        if !used(nm) { return nm.to_string(); }
        let mut k = 2;
        loop { let s = format!("{}#{}", nm, k); if !used(&s) { return s; } k += 1; }
    }

    fn builtin(&mut self, st: &mut State, k: K, fid: u32, args: &[(Ty, Op)], av: &[V], ret: &Ty) -> Res_<Option<V>> {
        let w = if let Some((Ty::Int(w), _)) = args.first() { *w } else { 64 };
        macro_rules! c { ($i:expr) => { self.conc(st, &av[$i])? } }
        macro_rules! e { ($i:expr) => { to_e(&av[$i], w) } }
        if av.iter().any(|v| matches!(v, V::A(_))) && !matches!(k, K::Nop | K::Panic) {
            // element-wise intrinsic on vectors
            if let V::A(x0) = &av[0] {
                let nn = x0.len();
                let et = args[0].0.field_ty(0);
                let mut r = vec![];
                for i in 0..nn {
                    let a2: Vec<(Ty, Op)> = args.iter().map(|(t, o)| (if matches!(t, Ty::Vec(..)) { et.clone() } else { t.clone() }, o.clone())).collect();
                    let v2: Vec<V> = av.iter().map(|v| match v { V::A(x) => x[i].clone(), v => v.clone() }).collect();
                    r.push(self.builtin(st, k, fid, &a2, &v2, &et)?.unwrap());
                }
                return Ok(Some(V::A(Rc::new(r))));
            }
        }
        Ok(match k {
            K::Nop => if *ret == Ty::Void { None } else { Some(V::C(0)) },
            K::Defined => unreachable!(),
            K::Panic => {
                let mut loc = String::new();
                if let Some(V::C(p)) = av.last() {
                    if let (Ok(V::C(fp)), Ok(V::C(fl)), Ok(V::C(line))) = (self.rd(st, *p, 8), self.rd(st, p + 8, 8), self.rd(st, p + 16, 4)) {
                        if fl < 4096 { if let Ok(b) = self.bytes(st, fp, fl) { loc = format!("{}:{}", String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).trim_end_matches('\0'), line); } }
                    }
                }
                return Err(Stop::Viol("panic".into(), format!("{} [{}]", loc, self.whereami(st))));
            }
            K::Trap => return Err(Stop::Viol("panic".into(), format!("abort [{}]", self.whereami(st)))),
            K::Alloc | K::AllocZ | K::Malloc => { let s = c!(0); let a = self.alloc(st, s)?; Some(V::C(a)) }
            K::Dealloc | K::Free => { let a = c!(0); if a == 0 && k == K::Free { return Ok(None); } if a & 0xffff_ffff != 0 || !st.mem.free(a) { return Err(self.oob(st, "invalid free", a)); } None }
            K::Realloc | K::ReallocC => {
                let a = c!(0);
                let s = if k == K::Realloc { c!(3) } else { c!(1) };
                let old = match st.mem.get(a) { Some(o) => o.data.len() as u64, None => return Err(self.oob(st, "realloc", a)) };
                let b = self.alloc(st, s)?;
                self.memcpy(st, b, a, old.min(s))?;
                st.mem.free(a);
                Some(V::C(b))
            }
            K::Memcpy => {
                let l = c!(2);
                if let V::E(se) = &av[1] {
                    if const_val(*se).is_none() && l <= 64 {
                        let mut vs = vec![];
                        for i in 0..l { let p = from_e(bin(X::Add, *se, konst(64, i as u128))); match self.load_sym(st, &p, &Ty::Int(8))? { Some(v) => vs.push(v), None => break } }
                        if vs.len() as u64 == l { let d = c!(0); for (i, v) in vs.iter().enumerate() { self.store(st, d + i as u64, &Ty::Int(8), v)?; } return Ok(None); }
                    }
                } let (d, s) = (c!(0), c!(1)); self.memcpy(st, d, s, l)?; None }
            K::Memset => {
                let l = c!(2);
                let d = c!(0);
                if l > 0 {
                    let off = (d & 0xffff_ffff) as usize;
                    match st.mem.get(d) { Some(o) if !o.ro && off + l as usize <= o.data.len() => {} _ => return Err(self.oob(st, "memset", d)) }
                    let (cv, sy) = match &av[1] { V::C(c) => (*c as u8, 0), v => { let e = to_e(v, 8); match const_val(e) { Some(c) => (c as u8, 0), None => (0, e) } } };
                    let o = st.mem.get_mut(d).unwrap();
                    let len = o.data.len();
                    if sy != 0 { let s = o.sym.get_or_insert_with(|| vec![0; len]); for x in &mut s[off..off + l as usize] { *x = sy; } }
                    else { for x in &mut o.data[off..off + l as usize] { *x = cv; } if let Some(s) = &mut o.sym { for x in &mut s[off..off + l as usize] { *x = 0; } } }
                }
                None
            }
            K::Memcmp | K::Bcmp => {
                let l = c!(2);
                let (a, b) = (c!(0), c!(1));
                let (x, y) = (self.bytes(st, a, l)?, self.bytes(st, b, l)?);
                let ex = |p: (u8, u32)| if p.1 != 0 { p.1 } else { konst(8, p.0 as u128) };
                if k == K::Bcmp {
                    let mut acc = konst(1, 1);
                    for i in 0..l as usize { if x[i].1 == 0 && y[i].1 == 0 { if x[i].0 != y[i].0 { return Ok(Some(V::C(1))); } continue; } acc = and1(bin(X::Eq, ex(x[i]), ex(y[i])), acc); }
                    Some(from_e(zext(not1(acc), 32)))
                } else {
                    let mut end = l as usize;
                    let mut r = konst(32, 0);
                    for i in 0..l as usize { if x[i].1 == 0 && y[i].1 == 0 && x[i].0 != y[i].0 { end = i; r = konst(32, if x[i].0 < y[i].0 { u32::MAX as u128 } else { 1 }); break; } }
                    for i in (0..end).rev() {
                        let (p, q) = (ex(x[i]), ex(y[i]));
                        if p == q { continue; }
                        let lt = ite(bin(X::Ult, p, q), konst(32, u32::MAX as u128), konst(32, 1));
                        r = ite(bin(X::Eq, p, q), r, lt);
                    }
                    Some(from_e(r))
                }
            }
            K::Strlen => {
                let a = c!(0);
                let mut i = 0;
                loop { let v = self.rd(st, a + i, 1)?; let b = self.conc(st, &v)?; if b == 0 { break; } i += 1; }
                Some(V::C(i))
            }
            K::Assume | K::Expect => if k == K::Expect { Some(av[0].clone()) } else { None },
            K::Umax | K::Umin | K::Smax | K::Smin => { let (a, b) = (e!(0), e!(1)); let lt = bin(if matches!(k, K::Umax | K::Umin) { X::Ult } else { X::Slt }, a, b); Some(from_e(if matches!(k, K::Umax | K::Smax) { ite(lt, b, a) } else { ite(lt, a, b) })) }
            K::Bswap => { let a = e!(0); let nb = w / 8; let mut acc = extract(a, w - 1, w - 8); for i in 1..nb { let h = w - 8 * i; acc = concat(extract(a, h - 1, h - 8), acc); } Some(from_e(acc)) }
            K::Bitrev => { let a = e!(0); let mut acc = extract(a, w - 1, w - 1); for i in 1..w { let h = w - 1 - i; acc = concat(extract(a, h, h), acc); } Some(from_e(acc)) }
            K::Ctpop => { match &av[0] { V::C(c) => Some(V::C(c.count_ones() as u64)), _ => { let a = e!(0); let mut s = konst(w, 0); for i in 0..w { s = bin(X::Add, s, zext(extract(a, i, i), w)); } Some(from_e(s)) } } }
            K::Ctlz | K::Cttz => {
                let a = e!(0);
                let mut r = konst(w, w as u128);
                if k == K::Ctlz { for i in 0..w { r = ite(extract(a, i, i), konst(w, (w - 1 - i) as u128), r); } } else { for i in (0..w).rev() { r = ite(extract(a, i, i), konst(w, i as u128), r); } }
                Some(from_e(r))
            }
            K::Fshl | K::Fshr => {
                let s = c!(2) % w as u64;
                let cc = concat(e!(0), e!(1));
                let s = s as u32;
                Some(from_e(if k == K::Fshl { extract(cc, 2 * w - 1 - s, w - s) } else { extract(cc, w - 1 + s, s) }))
            }
            K::Abs => { let a = e!(0); let neg = bin(X::Slt, a, konst(w, 0)); Some(from_e(ite(neg, bin(X::Sub, konst(w, 0), a), a))) }
            K::Fabs => { let a = c!(0); Some(V::C(a & !(1 << 63))) }
            K::Scmp | K::Ucmp => { let rw = ret.bits(); let (a, b) = (e!(0), e!(1)); let op = if k == K::Scmp { X::Slt } else { X::Ult }; let (l, g) = (bin(op, a, b), bin(op, b, a)); Some(from_e(ite(l, konst(rw, m128(rw)), ite(g, konst(rw, 1), konst(rw, 0))))) }
            K::UaddSat => { let (a, b) = (e!(0), e!(1)); let s = bin(X::Add, a, b); Some(from_e(ite(bin(X::Ult, s, a), konst(w, m128(w)), s))) }
            K::UsubSat => { let (a, b) = (e!(0), e!(1)); Some(from_e(ite(bin(X::Ult, a, b), konst(w, 0), bin(X::Sub, a, b)))) }
            K::SaddSat | K::SsubSat => {
                let (a, b) = (sext(e!(0), w + 1), sext(e!(1), w + 1));
                let s = bin(if k == K::SaddSat { X::Add } else { X::Sub }, a, b);
                let mx = konst(w + 1, m128(w - 1));
                let mn = konst(w + 1, m128(w + 1) ^ m128(w - 1));
                let r = ite(bin(X::Slt, mx, s), mx, ite(bin(X::Slt, s, mn), mn, s));
                Some(from_e(extract(r, w - 1, 0)))
            }
            K::AddO(sg) | K::SubO(sg) | K::MulO(sg) => {
                let mul = matches!(k, K::MulO(_));
                if let (V::C(a), V::C(b)) = (&av[0], &av[1]) {
                    let (r, o) = if sg {
                        let (x, y) = (sx(*a, w) as i128, sx(*b, w) as i128);
                        let r = match k { K::AddO(_) => x + y, K::SubO(_) => x - y, _ => x * y };
                        (r as u64 & mask64(w), r != sx(r as u64 & mask64(w), w) as i128)
                    } else {
                        let (x, y) = (*a as u128, *b as u128);
                        match k { K::AddO(_) => { let r = x + y; (r as u64 & mask64(w), r > m128(w)) } K::SubO(_) => (a.wrapping_sub(*b) & mask64(w), x < y), _ => { let r = x * y; (r as u64 & mask64(w), r > m128(w)) } }
                    };
                    return Ok(Some(V::A(Rc::new(vec![V::C(r), V::C(o as u64)]))));
                }
                let (a, b) = (e!(0), e!(1));
                let small = |x: u32| w <= 64 && n(x).hi < 1u64 << (w - 1);
                let (r, o) = if sg && matches!(k, K::SubO(_)) && small(a) && small(b) { (bin(X::Sub, a, b), konst(1, 0)) }
                    else if sg && matches!(k, K::AddO(_)) && small(a) && small(b) && n(a).hi + n(b).hi < 1u64 << (w - 1) { (bin(X::Add, a, b), konst(1, 0)) }
                    else if sg && mul && small(a) && small(b) && (n(a).hi as u128 * n(b).hi as u128) < 1u128 << (w - 1) { (bin(X::Mul, a, b), konst(1, 0)) }
                    else if !sg && !mul && matches!(k, K::SubO(_)) { (bin(X::Sub, a, b), bin(X::Ult, a, b)) }
                    else if !sg && matches!(k, K::AddO(_)) { let s = bin(X::Add, a, b); (s, bin(X::Ult, s, a)) }
                    else {
                        let w2 = if mul { 2 * w } else { w + 1 };
                        let (x, y) = if sg { (sext(a, w2), sext(b, w2)) } else { (zext(a, w2), zext(b, w2)) };
                        let r = bin(match k { K::AddO(_) => X::Add, K::SubO(_) => X::Sub, _ => X::Mul }, x, y);
                        let lo = extract(r, w - 1, 0);
                        let back = if sg { sext(lo, w2) } else { zext(lo, w2) };
                        if mul && !sg { // overflow iff high part nonzero; with a constant factor a comparison suffices
                            if let Some(kb) = const_val(b) { if kb != 0 { (bin(X::Mul, a, b), bin(X::Ult, konst(w, m128(w) / kb), a)) } else { (konst(w, 0), konst(1, 0)) } } else { (lo, not1(bin(X::Eq, back, r))) }
                        } else { (lo, not1(bin(X::Eq, back, r))) }
                    };
                Some(V::A(Rc::new(vec![from_e(r), from_e(o)])))
            }
            K::Tls => Some(av[0].clone()),
            K::LoadRel => { let (p, o) = (c!(0), c!(1)); let v = self.rd(st, p.wrapping_add(o), 4)?; let i = self.conc(st, &v)?; Some(V::C(*self.m.rel.get(i as usize).ok_or_else(|| Stop::Bad("load.relative".into()))?)) }
            K::ZeroRet => Some(V::C(0)),
            K::Getrandom => { let (a, l) = (c!(0), c!(1)); for i in 0..l { self.nrand = self.nrand.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.store(st, a + i, &Ty::Int(8), &V::C(0x5a))?; } Some(V::C(l)) }
            K::Syscall => { let nr = c!(0); match nr { 318 => { let (a, l) = (c!(1), c!(2)); for i in 0..l { self.store(st, a + i, &Ty::Int(8), &V::C(0x5a))?; } Some(V::C(l)) } 202 => { if c!(2) & 127 == 0 || c!(2) & 127 == 9 { return Err(Stop::Viol("deadlock".into(), format!("blocks forever: {}", self.whereami(st)))); } Some(V::C(0)) } x => return Err(Stop::Bad(format!("syscall {}", x))) } }
            K::Write => Some(V::C(c!(2))),
            K::Writev => return Err(Stop::Bad("writev".into())),
            K::Errno => Some(V::C(self.errno)),
            K::Gettid => Some(V::C(1)),
            K::SymBytes => {
                let (p, l) = (c!(0), c!(1));
                let nm = self.name_arg(st, &av[2], &av[3])?;
                let nm = self.uniq(st, &nm);
                let mut vs = vec![];
                for i in 0..l {
                    // variables are shared between paths that create them under the same name
                    let vn = self.var(&format!("{}[{}]", nm, i), 8);
                    st.pc.ensure();
                    vs.push(vn);
                    let nd = cx().vars[vn as usize].node;
                    self.store(st, p + i, &Ty::Int(8), &V::E(nd))?;
                }
                st.inputs.push(Input::Bytes(nm, vs));
                None
            }
            K::SymU64 => { let nm = self.name_arg(st, &av[0], &av[1])?; let nm = self.uniq(st, &nm); let v = self.var(&nm, 64); st.pc.ensure(); st.inputs.push(Input::U64(nm, v)); Some(V::E(cx().vars[v as usize].node)) }
            K::SymChoice => {
                let nn = c!(0);
                let nm = self.name_arg(st, &av[1], &av[2])?;
                let nm = self.uniq(st, &nm);
                if nn == 0 { return Err(Stop::Infeasible); }
                // fork into nn states after this call
                let d = match &st.cur.f.blocks[st.cur.block as usize].ins[st.cur.ip as usize] { I::Call { dst, .. } => *dst, _ => u32::MAX };
                for i in 1..nn {
                    let mut s2 = st.clone();
                    s2.inputs.push(Input::Choice(nm.clone(), i));
                    if d != u32::MAX { s2.cur.regs[d as usize] = V::C(i); }
                    s2.cur.ip += 1;
                    s2.depth += 1;
                    self.rep.forks += 1;
                    self.work.push_back(s2);
                }
                st.inputs.push(Input::Choice(nm, 0));
                Some(V::C(0))
            }
            K::SymAssume => {
                let e = to_e(&av[0], 1);
                match self.feasible(&mut st.pc, e)? { None => return Err(Stop::Infeasible), Some(p) => self.add(&mut st.pc, e, &p) }
                None
            }
            K::SymAssert | K::SymAssertEq => {
                let (cond, nm) = if k == K::SymAssert { (to_e(&av[0], 1), self.name_arg(st, &av[1], &av[2])?) } else {
                    let (p1, l1, p2, l2) = (c!(0), c!(1), c!(2), c!(3));
                    let nm = self.name_arg(st, &av[4], &av[5])?;
                    if l1 != l2 { (konst(1, 0), nm) } else {
                        let (x, y) = (self.bytes(st, p1, l1)?, self.bytes(st, p2, l2)?);
                        let mut acc = konst(1, 1);
                        for i in 0..l1 as usize { if x[i] == y[i] || (x[i].1 != 0 && x[i].1 == y[i].1) { continue; } let ex = |p: (u8, u32)| if p.1 != 0 { p.1 } else { konst(8, p.0 as u128) }; acc = and1(bin(X::Eq, ex(x[i]), ex(y[i])), acc); }
                        (acc, nm)
                    }
                };
                match const_val(cond) {
                    Some(1) => { self.rep.asserts_syntactic += 1; }
                    _ => {
                        self.rep.asserts_solver += 1;
                        if self.trace { eprintln!("assert? {} at {}", show(cond, 12), self.whereami(st)); }
                        if let Some(p) = self.refute(&mut st.pc, cond)? {
                            let nc = not1(cond);
                            self.add(&mut st.pc, nc, &p);
                            return Err(Stop::Viol("assert".into(), nm));
                        }
                        // holds: becomes part of what is known on this path
                    }
                }
                None
            }
            K::SymReach => { let nm = self.name_arg(st, &av[0], &av[1])?; let i = match self.reach_names.iter().position(|x| *x == nm) { Some(i) => i, None => { self.reach_names.push(nm); self.reach_names.len() - 1 } }; if !st.reaches.contains(&(i as u32)) { st.reaches.push(i as u32); } None }
            K::SymPrint => { let (p, l) = (c!(0), c!(1)); let b = self.bytes(st, p, l)?; st.prints.push(Rc::new(b)); None }
            K::SymConc => { let v = c!(0); Some(V::C(v)) }
            K::Unsupported => return Err(Stop::Bad(format!("unsupported external {}", self.m.fnames[fid as usize]))),
        })
    }
    fn var(&mut self, name: &str, w: u32) -> u32 {
        thread_local!(static VARS: std::cell::RefCell<HashMap<String, u32>> = Default::default());
        VARS.with(|m| { let mut m = m.borrow_mut(); if let Some(v) = m.get(name) { return *v; } let nd = new_var(name, w); let v = n(nd).k as u32; m.insert(name.to_string(), v); v })
    }
}
