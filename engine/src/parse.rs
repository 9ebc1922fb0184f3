//! Reader for textual LLVM IR (the subset rustc emits), producing pre-decoded
//! functions and concrete initial memory for globals.
use crate::expr;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(u64, Rc<Ty>),
    St(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::St(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => { let s = ((*w + 7) / 8) as u64; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vec(..) => { let s = self.store_size(); let a = self.align(); (s + a - 1) / a * a }
        }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, t => panic!("bits of {:?}", t) }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::St(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return o; }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(),
            t => panic!("field_off {:?}", t),
        }
    }
    pub fn field_ty(&self, i: u64) -> Ty {
        match self {
            Ty::St(f, _) => f[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            t => panic!("field_ty {:?}", t),
        }
    }
    pub fn nfields(&self) -> usize {
        match self { Ty::St(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 }
    }
}

#[derive(Clone, Debug)]
pub enum V { C(u64), E(u32), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Op { R(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C { Trunc, ZExt, SExt, Bit, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(u32), Dyn(Op), Asm }

#[derive(Debug)]
pub enum I {
    Bin(B, Ty, Op, Op, u32),
    Cmp(P, Ty, Op, Op, u32),
    FCmp(String, Op, Op, u32),
    FNeg(Op, u32),
    Cast(C, Ty, Op, Ty, u32),
    Copy(Op, u32), // freeze, inttoptr, ptrtoint
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, u64, u32)>, u32),
    Alloca(u64, Option<Op>, u32),
    Call { callee: Callee, args: Vec<(Ty, Op)>, dst: u32, ret: Ty },
    Select(Ty, Op, Op, Op, u32, bool), // last: cond is vector
    Extract(Op, Vec<u32>, u32),
    Insert(Op, Op, Vec<u32>, u32),
    ExtractEl(Op, Op, u32),
    InsertEl(Op, Op, Op, u32),
    Shuffle(Op, Op, Vec<u32>, u32),
    Br(u32),
    CBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Bad(String),
}
#[derive(Default, Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>, Ty)>, pub ins: Vec<I> }
#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub blocks: Vec<Block>, pub nregs: u32, pub ninstr: usize }

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub constant: bool, pub bytes: Vec<u8>, pub external: bool }

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Option<Func>>, // indexed by fn id; None for externals
    pub fnames: Vec<String>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub rel: Vec<u64>,
    pub exts: Vec<String>,
}
pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 { FN_BASE + (i as u64) * 16 }

pub struct P_<'a> { s: &'a [u8], i: usize }
type R<T> = Result<T, String>;

impl<'a> P_<'a> {
    fn new(s: &'a str) -> Self { P_ { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1; }
            if self.i < self.s.len() && self.s[self.i] == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } } else { break; }
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() { let n = self.s.get(self.i + t.len()).copied().unwrap_or(0); if n.is_ascii_alphanumeric() || n == b'_' || n == b'.' { return false; } }
            self.i += t.len();
            true
        } else { false }
    }
    fn expect(&mut self, t: &str) -> R<()> { if self.eat(t) { Ok(()) } else { Err(format!("expected {:?} at {:?}", t, self.ctx())) } }
    fn ctx(&self) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]).into_owned() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() { let c = self.s[self.i]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' { self.i += 1 } else { break } }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn peek_word(&mut self) -> &'a str { let s = self.i; let w = self.word(); self.i = s; w }
    /// after '%' or '@' or '!'
    fn ident(&mut self) -> &'a str {
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = &self.s[st..self.i];
            self.i += 1;
            return unsafe { std::str::from_utf8_unchecked(r) };
        }
        let st = self.i;
        while self.i < self.s.len() { let c = self.s[self.i]; if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') { self.i += 1 } else { break } }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.s.get(self.i) == Some(&b'-') { self.i += 1; }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        match t.parse::<i128>() {
            Ok(v) => Ok(v),
            Err(_) => t.parse::<u128>().map(|v| v as i128).map_err(|_| format!("int {:?}", self.ctx())),
        }
    }
    fn skip_parens(&mut self) {
        if self.peek() != b'(' { return; }
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    fn is_ty(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => { let w = self.peek_word(); matches!(w, "void" | "ptr" | "double" | "float" | "metadata" | "half" | "label") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())) }
        }
    }
    fn ty(&mut self, m: &Module) -> R<Ty> {
        match self.peek() {
            b'{' => { self.i += 1; let mut f = vec![]; if !self.eat("}") { loop { f.push(self.ty(m)?); if self.eat("}") { break; } self.expect(",")?; } } Ok(Ty::St(Rc::new(f), false)) }
            b'[' => { self.i += 1; let n = self.int()? as u64; self.expect("x")?; let t = self.ty(m)?; self.expect("]")?; Ok(Ty::Arr(n, Rc::new(t))) }
            b'<' => {
                self.i += 1;
                if self.eat("{") { let mut f = vec![]; if !self.eat("}") { loop { f.push(self.ty(m)?); if self.eat("}") { break; } self.expect(",")?; } } self.expect(">")?; return Ok(Ty::St(Rc::new(f), true)); }
                let n = self.int()? as u32; self.expect("x")?; let t = self.ty(m)?; self.expect(">")?; Ok(Ty::Vec(n, Rc::new(t)))
            }
            b'%' => { self.i += 1; let n = self.ident(); m.types.get(n).cloned().ok_or(format!("type %{}", n)) }
            _ => {
                let w = self.word();
                let t = match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "double" => Ty::F64, "float" => Ty::F32, "metadata" => Ty::Meta, "label" => Ty::Void,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {:?} at {}", w, self.ctx()))?),
                    _ => return Err(format!("type {:?} at {}", w, self.ctx())) };
                if t == Ty::Ptr && self.eat("addrspace") { self.skip_parens(); }
                Ok(t)
            }
        }
    }
    /// Skip parameter / call attributes up to a value, ',' or ')'.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                b'%' | b'@' | b',' | b')' | b'-' | b'!' | 0 | b'{' | b'[' | b'<' | b'0'..=b'9' | b'(' | b'+' => return,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; if self.peek() == b'=' { self.i += 1; self.peek(); self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } }
                b'#' => { self.i += 1; self.word(); }
                _ => {
                    let s = self.i;
                    let w = self.word();
                    if matches!(w, "null" | "undef" | "poison" | "zeroinitializer" | "true" | "false" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "trunc" | "c" | "add" | "none" | "asm" | "nan" | "inf") || (w.starts_with("0x")) { self.i = s; return; }
                    if w.is_empty() { return; }
                    if w == "align" { if self.peek() == b'(' { self.skip_parens(); } else { let _ = self.int(); } continue; }
                    if self.peek() == b'(' { self.skip_parens(); }
                }
            }
        }
    }
}

fn gaddr(m: &mut Module, n: &str) -> R<u64> {
    let n = m.aliases.get(n).cloned().unwrap_or_else(|| n.to_string());
    if let Some(g) = m.gidx.get(&n) { return Ok(m.globals[*g as usize].addr); }
    if let Some(f) = m.fidx.get(&n) { return Ok(fn_addr(*f)); }
    Err(format!("unknown global @{}", n))
}

/// Zero value of a type.
pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Int(w) if *w > 64 => V::E(expr::konst(*w, 0)),
        Ty::Arr(n, e) => V::A(Rc::new(vec![zero(e); *n as usize])),
        Ty::Vec(n, e) => V::A(Rc::new(vec![zero(e); *n as usize])),
        Ty::St(f, _) => V::A(Rc::new(f.iter().map(zero).collect())),
        _ => V::C(0),
    }
}
pub fn mkint(w: u32, v: u128) -> V {
    if w > 64 { V::E(expr::konst(w, v)) } else { V::C((v as u64) & mask64(w)) }
}
pub fn mask64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

fn parse_float(w: &str) -> Option<u64> {
    if let Some(h) = w.strip_prefix("0x") { return u64::from_str_radix(h, 16).ok(); }
    match w { "+inf" | "inf" => return Some(f64::INFINITY.to_bits()), "-inf" => return Some(f64::NEG_INFINITY.to_bits()), "+nan" | "nan" | "+qnan" => return Some(f64::NAN.to_bits()), _ => {} }
    w.parse::<f64>().ok().map(|f| f.to_bits())
}

/// Parse a constant of type t.
fn konst(p: &mut P_, m: &mut Module, t: &Ty) -> R<V> {
    match p.peek() {
        b'@' => { p.i += 1; let n = p.ident().to_string(); return Ok(V::C(gaddr(m, &n)?)); }
        b'{' => { p.i += 1; let mut v = vec![]; if !p.eat("}") { loop { let t = p.ty(m)?; v.push(konst(p, m, &t)?); if p.eat("}") { break; } p.expect(",")?; } } return Ok(V::A(Rc::new(v))); }
        b'[' => { p.i += 1; let mut v = vec![]; if !p.eat("]") { loop { let t = p.ty(m)?; v.push(konst(p, m, &t)?); if p.eat("]") { break; } p.expect(",")?; } } return Ok(V::A(Rc::new(v))); }
        b'<' => {
            p.i += 1;
            let packed = p.eat("{");
            let close = if packed { "}" } else { ">" };
            let mut v = vec![];
            if !p.eat(close) { loop { let t = p.ty(m)?; v.push(konst(p, m, &t)?); if p.eat(close) { break; } p.expect(",")?; } }
            if packed { p.expect(">")?; }
            return Ok(V::A(Rc::new(v)));
        }
        b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
            p.i += 2;
            let mut v = vec![];
            loop {
                let c = p.s[p.i];
                if c == b'"' { p.i += 1; break; }
                if c == b'\\' && p.s[p.i + 1] == b'\\' { v.push(V::C(92)); p.i += 2; } else if c == b'\\' { let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap(); v.push(V::C(u64::from_str_radix(h, 16).unwrap())); p.i += 3; } else { v.push(V::C(c as u64)); p.i += 1; }
            }
            return Ok(V::A(Rc::new(v)));
        }
        _ => {}
    }
    if let Ty::F64 | Ty::F32 = t {
        p.ws();
        let st = p.i;
        while p.i < p.s.len() && !matches!(p.s[p.i], b',' | b')' | b' ' | b'\n' | b'}' | b']' | b'>') { p.i += 1; }
        let w = std::str::from_utf8(&p.s[st..p.i]).unwrap();
        if w == "zeroinitializer" || w == "undef" || w == "poison" { return Ok(V::C(0)); }
        return parse_float(w).map(V::C).ok_or(format!("float {}", w));
    }
    let c = p.peek();
    if c == b'-' || c.is_ascii_digit() {
        let v = p.int()?;
        return Ok(mkint(t.bits(), v as u128));
    }
    let w = p.word();
    Ok(match w {
        "null" | "false" => V::C(0),
        "true" => V::C(1),
        "zeroinitializer" | "undef" | "poison" => zero(t),
        "none" => V::C(0),
        "splat" => { p.expect("(")?; let e = p.ty(m)?; let v = konst(p, m, &e)?; p.expect(")")?; V::A(Rc::new(vec![v; t.nfields()])) }
        "getelementptr" => {
            loop { let w = p.peek_word(); if matches!(w, "inbounds" | "nuw" | "nusw") { p.word(); } else if w == "inrange" { p.word(); p.skip_parens(); } else { break; } }
            p.expect("(")?;
            let bt = p.ty(m)?;
            p.expect(",")?;
            let _ = p.ty(m)?;
            let base = match konst(p, m, &Ty::Ptr)? { V::C(a) => a, _ => return Err("gep base".into()) };
            let mut off: i64 = 0;
            let mut cur = bt;
            let mut first = true;
            while p.eat(",") {
                let it = p.ty(m)?;
                let ix = match konst(p, m, &it)? { V::C(a) => sx(a, it.bits()), _ => return Err("gep idx".into()) };
                if first { off += ix * cur.size() as i64; first = false; } else { off += cur.field_off(ix as u64) as i64; cur = cur.field_ty(ix as u64); }
            }
            p.expect(")")?;
            V::C(base.wrapping_add(off as u64))
        }
        "ptrtoint" | "inttoptr" | "bitcast" => { p.expect("(")?; let t0 = p.ty(m)?; let v = konst(p, m, &t0)?; p.expect("to")?; let t1 = p.ty(m)?; p.expect(")")?; match v { V::C(a) => V::C(a & mask64(t1.bits())), v => v } }
        "trunc" => {
            p.expect("(")?;
            let t0 = p.ty(m)?;
            // relative look-up table entry: trunc (sub (ptrtoint A, ptrtoint B))
            p.ws();
            let v = konst(p, m, &t0)?;
            p.expect("to")?;
            let t1 = p.ty(m)?;
            p.expect(")")?;
            match v { V::A(pair) if t1.bits() == 32 => { let a = match pair[0] { V::C(a) => a, _ => 0 }; m.rel.push(a); V::C((m.rel.len() - 1) as u64) } V::C(a) => V::C(a & mask64(t1.bits())), _ => return Err("trunc const".into()) }
        }
        "sub" | "add" => {
            let is_sub = w == "sub";
            while matches!(p.peek_word(), "nuw" | "nsw") { p.word(); }
            p.expect("(")?;
            let t0 = p.ty(m)?; let a = konst(p, m, &t0)?; p.expect(",")?; let t1 = p.ty(m)?; let b = konst(p, m, &t1)?; p.expect(")")?;
            match (a, b) { (V::C(a), V::C(b)) => if is_sub { if a >> 32 != b >> 32 { V::A(Rc::new(vec![V::C(a), V::C(b)])) } else { V::A(Rc::new(vec![V::C(a), V::C(b)])) } } else { V::C(a.wrapping_add(b)) }, _ => return Err("sub const".into()) }
        }
        _ => return Err(format!("constant {:?} at {:?}", w, p.ctx())),
    })
}
pub fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn init_bytes(t: &Ty, v: &V, out: &mut [u8]) {
    match (t, v) {
        (Ty::Int(w), V::E(e)) if *w > 64 => { let k = expr::const_val(*e).unwrap(); out[..16].copy_from_slice(&k.to_le_bytes()); }
        (Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32, V::C(c)) => { let n = t.store_size() as usize; out[..n].copy_from_slice(&c.to_le_bytes()[..n]); }
        (Ty::Arr(_, e) | Ty::Vec(_, e), V::A(vs)) => { let s = e.size() as usize; for (i, v) in vs.iter().enumerate() { init_bytes(e, v, &mut out[i * s..]); } }
        (Ty::St(f, _), V::A(vs)) => { for (i, v) in vs.iter().enumerate() { let o = t.field_off(i as u64) as usize; init_bytes(&f[i], v, &mut out[o..]); } }
        _ => panic!("init {:?} {:?}", t, v),
    }
}

struct FnCtx<'a> { regs: HashMap<&'a str, u32>, blocks: HashMap<&'a str, u32> }
impl<'a> FnCtx<'a> {
    fn reg(&mut self, n: &'a str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
}
fn operand<'a>(p: &mut P_<'a>, m: &mut Module, f: &mut FnCtx<'a>, t: &Ty) -> R<Op> {
    if p.peek() == b'%' { p.i += 1; let n = p.ident(); return Ok(Op::R(f.reg(n))); }
    Ok(Op::K(konst(p, m, t)?))
}
fn label<'a>(p: &mut P_<'a>, f: &FnCtx<'a>) -> R<u32> {
    p.expect("label")?;
    p.ws();
    p.expect("%")?;
    let n = p.ident();
    f.blocks.get(n).copied().ok_or(format!("label {}", n))
}

fn instr<'a>(p: &mut P_<'a>, m: &mut Module, f: &mut FnCtx<'a>) -> R<(Option<(u32, Vec<(u32, Op)>, Ty)>, Option<I>)> {
    let mut dst = u32::MAX;
    if p.peek() == b'%' {
        p.i += 1;
        let n = p.ident();
        p.expect("=")?;
        dst = f.reg(n);
    }
    let mut op = p.word();
    while matches!(op, "tail" | "musttail" | "notail") { op = p.word(); }
    let flags = |p: &mut P_| { while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); } };
    let bin = match op {
        "add" => Some(B::Add), "sub" => Some(B::Sub), "mul" => Some(B::Mul), "udiv" => Some(B::UDiv), "sdiv" => Some(B::SDiv), "urem" => Some(B::URem), "srem" => Some(B::SRem),
        "and" => Some(B::And), "or" => Some(B::Or), "xor" => Some(B::Xor), "shl" => Some(B::Shl), "lshr" => Some(B::LShr), "ashr" => Some(B::AShr),
        "fadd" => Some(B::FAdd), "fsub" => Some(B::FSub), "fmul" => Some(B::FMul), "fdiv" => Some(B::FDiv), _ => None,
    };
    if let Some(b) = bin {
        flags(p);
        let t = p.ty(m)?;
        let a = operand(p, m, f, &t)?;
        p.expect(",")?;
        let c = operand(p, m, f, &t)?;
        return Ok((None, Some(I::Bin(b, t, a, c, dst))));
    }
    let cast = match op { "trunc" => Some(C::Trunc), "zext" => Some(C::ZExt), "sext" => Some(C::SExt), "bitcast" => Some(C::Bit), "uitofp" => Some(C::UiToFp), "sitofp" => Some(C::SiToFp), "fptoui" => Some(C::FpToUi), "fptosi" => Some(C::FpToSi), "fpext" => Some(C::FpExt), "fptrunc" => Some(C::FpTrunc), "ptrtoint" => Some(C::ZExt), "inttoptr" => Some(C::ZExt), "ptrtoaddr" => Some(C::ZExt), _ => None };
    if let Some(c) = cast {
        flags(p);
        let t = p.ty(m)?;
        let a = operand(p, m, f, &t)?;
        p.expect("to")?;
        let t2 = p.ty(m)?;
        if c == C::ZExt && t == Ty::Ptr || t2 == Ty::Ptr {
            let (b1, b2) = (t.bits(), t2.bits());
            if b1 == b2 { return Ok((None, Some(I::Copy(a, dst)))); }
            return Ok((None, Some(I::Cast(if b2 < b1 { C::Trunc } else { C::ZExt }, Ty::Int(b1), a, Ty::Int(b2), dst))));
        }
        return Ok((None, Some(I::Cast(c, t, a, t2, dst))));
    }
    let r = match op {
        "icmp" => {
            flags(p);
            let pr = match p.word() { "eq" => P::Eq, "ne" => P::Ne, "ugt" => P::Ugt, "uge" => P::Uge, "ult" => P::Ult, "ule" => P::Ule, "sgt" => P::Sgt, "sge" => P::Sge, "slt" => P::Slt, "sle" => P::Sle, w => return Err(format!("icmp {}", w)) };
            let t = p.ty(m)?;
            let a = operand(p, m, f, &t)?;
            p.expect(",")?;
            let b = operand(p, m, f, &t)?;
            I::Cmp(pr, t, a, b, dst)
        }
        "fcmp" => {
            flags(p);
            let pr = p.word().to_string();
            let t = p.ty(m)?;
            let a = operand(p, m, f, &t)?;
            p.expect(",")?;
            let b = operand(p, m, f, &t)?;
            I::FCmp(pr, a, b, dst)
        }
        "fneg" => { flags(p); let t = p.ty(m)?; let a = operand(p, m, f, &t)?; I::FNeg(a, dst) }
        "freeze" => { let t = p.ty(m)?; let a = operand(p, m, f, &t)?; I::Copy(a, dst) }
        "load" => {
            if p.eat("atomic") {}
            if p.eat("volatile") {}
            let t = p.ty(m)?;
            p.expect(",")?;
            let pt = p.ty(m)?;
            let a = operand(p, m, f, &pt)?;
            I::Load(t, a, dst)
        }
        "store" => {
            if p.eat("atomic") {}
            if p.eat("volatile") {}
            let t = p.ty(m)?;
            let v = operand(p, m, f, &t)?;
            p.expect(",")?;
            let pt = p.ty(m)?;
            let a = operand(p, m, f, &pt)?;
            I::Store(t, v, a)
        }
        "getelementptr" => {
            while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") { p.word(); }
            let bt = p.ty(m)?;
            p.expect(",")?;
            let pt = p.ty(m)?;
            if pt != Ty::Ptr { return Err("vector gep".into()); }
            let base = operand(p, m, f, &pt)?;
            let mut off = 0i64;
            let mut terms = vec![];
            let mut cur = bt;
            let mut first = true;
            while p.eat(",") {
                if p.peek() == b'!' { break; }
                let it = p.ty(m)?;
                let ix = operand(p, m, f, &it)?;
                let scale;
                if first { scale = cur.size(); first = false; } else {
                    match &cur { Ty::St(..) => { let k = match ix { Op::K(V::C(c)) => c, _ => return Err("gep struct idx".into()) }; off += cur.field_off(k) as i64; cur = cur.field_ty(k); continue; } _ => { let e = cur.field_ty(0); scale = e.size(); cur = e; } }
                }
                match ix { Op::K(V::C(c)) => off += sx(c, it.bits()) * scale as i64, o => terms.push((o, scale, it.bits())) }
            }
            I::Gep(base, off, terms, dst)
        }
        "alloca" => {
            let t = p.ty(m)?;
            let mut n = None;
            if p.eat(",") { if p.is_ty() { let nt = p.ty(m)?; n = Some(operand(p, m, f, &nt)?); } }
            I::Alloca(t.size(), n, dst)
        }
        "call" => {
            flags(p);
            // calling convention / return attributes
            loop { if p.is_ty() { break; } let w = p.word(); if w.is_empty() { return Err(format!("call {:?}", p.ctx())); } if w == "align" && p.peek() != b'(' { let _ = p.int(); } p.skip_parens(); }
            let ret = p.ty(m)?;
            // optional function type "(...)" for varargs
            if p.peek() == b'(' { p.skip_parens(); }
            p.skip_attrs();
            let callee = match p.peek() {
                b'@' => { p.i += 1; let n = p.ident().to_string(); let n = m.aliases.get(&n).cloned().unwrap_or(n); let id = *m.fidx.get(&n).ok_or(format!("callee @{}", n))?; if m.funcs[id as usize].is_none() && !m.exts.is_empty() { Callee::Fn(id) } else { Callee::Fn(id) } }
                b'%' => { p.i += 1; let n = p.ident(); Callee::Dyn(Op::R(f.reg(n))) }
                b'a' => { p.word(); while p.peek() != b'"' { p.word(); } for k in 0..2 { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; if k == 0 { p.expect(",")?; p.peek(); } } Callee::Asm }
                b'i' => { Callee::Dyn(Op::K(konst(p, m, &Ty::Ptr)?)) }
                _ => return Err(format!("callee {:?}", p.ctx())),
            };
            p.expect("(")?;
            let mut args = vec![];
            if !p.eat(")") {
                loop {
                    let t = p.ty(m)?;
                    if t == Ty::Meta { // skip metadata operand
                        let mut d = 0; while !(d == 0 && matches!(p.s[p.i], b',' | b')')) { match p.s[p.i] { b'(' | b'{' => d += 1, b')' | b'}' => d -= 1, _ => {} } p.i += 1; }
                        args.push((t, Op::K(V::C(0))));
                    } else {
                        p.skip_attrs();
                        let o = operand(p, m, f, &t)?;
                        args.push((t, o));
                    }
                    if p.eat(")") { break; }
                    p.expect(",")?;
                }
            }
            I::Call { callee, args, dst, ret }
        }
        "select" => {
            flags(p);
            let ct = p.ty(m)?;
            let c = operand(p, m, f, &ct)?;
            p.expect(",")?;
            let t = p.ty(m)?;
            let a = operand(p, m, f, &t)?;
            p.expect(",")?;
            let t2 = p.ty(m)?;
            let b = operand(p, m, f, &t2)?;
            I::Select(t, c, a, b, dst, matches!(ct, Ty::Vec(..)))
        }
        "phi" => {
            flags(p);
            let t = p.ty(m)?;
            let mut inc = vec![];
            loop {
                p.expect("[")?;
                let v = operand(p, m, f, &t)?;
                p.expect(",")?;
                p.ws();
                p.expect("%")?;
                let n = p.ident();
                let b = *f.blocks.get(n).ok_or(format!("phi label {}", n))?;
                p.expect("]")?;
                inc.push((b, v));
                if !p.eat(",") { break; }
                if p.peek() == b'!' { break; }
            }
            return Ok((Some((dst, inc, t)), None));
        }
        "extractvalue" => { let t = p.ty(m)?; let a = operand(p, m, f, &t)?; let mut ix = vec![]; while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.int()? as u32); } I::Extract(a, ix, dst) }
        "insertvalue" => { let t = p.ty(m)?; let a = operand(p, m, f, &t)?; p.expect(",")?; let t2 = p.ty(m)?; let b = operand(p, m, f, &t2)?; let mut ix = vec![]; while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.int()? as u32); } I::Insert(a, b, ix, dst) }
        "extractelement" => { let t = p.ty(m)?; let a = operand(p, m, f, &t)?; p.expect(",")?; let t2 = p.ty(m)?; let b = operand(p, m, f, &t2)?; I::ExtractEl(a, b, dst) }
        "insertelement" => { let t = p.ty(m)?; let a = operand(p, m, f, &t)?; p.expect(",")?; let t2 = p.ty(m)?; let b = operand(p, m, f, &t2)?; p.expect(",")?; let t3 = p.ty(m)?; let c = operand(p, m, f, &t3)?; I::InsertEl(a, b, c, dst) }
        "shufflevector" => {
            let t = p.ty(m)?; let a = operand(p, m, f, &t)?; p.expect(",")?; let t2 = p.ty(m)?; let b = operand(p, m, f, &t2)?; p.expect(",")?; let t3 = p.ty(m)?; let k = konst(p, m, &t3)?;
            let mv = match k { V::A(v) => v.iter().map(|x| match x { V::C(c) => *c as u32, _ => 0 }).collect(), _ => return Err("shuffle mask".into()) };
            I::Shuffle(a, b, mv, dst)
        }
        "br" => {
            if p.peek_word() == "label" { I::Br(label(p, f)?) } else {
                let t = p.ty(m)?;
                let c = operand(p, m, f, &t)?;
                p.expect(",")?;
                let a = label(p, f)?;
                p.expect(",")?;
                let b = label(p, f)?;
                I::CBr(c, a, b)
            }
        }
        "switch" => {
            let t = p.ty(m)?;
            let c = operand(p, m, f, &t)?;
            p.expect(",")?;
            let d = label(p, f)?;
            p.expect("[")?;
            let mut cs = vec![];
            while !p.eat("]") {
                let t2 = p.ty(m)?;
                let k = match konst(p, m, &t2)? { V::C(c) => c as u128, V::E(e) => expr::const_val(e).unwrap(), _ => return Err("switch".into()) };
                p.expect(",")?;
                let l = label(p, f)?;
                cs.push((k, l));
            }
            I::Switch(t, c, d, cs)
        }
        "ret" => { let t = p.ty(m)?; if t == Ty::Void { I::Ret(None) } else { I::Ret(Some(operand(p, m, f, &t)?)) } }
        "unreachable" => I::Unreachable,
        "fence" => return Ok((None, None)),
        w => I::Bad(w.to_string()),
    };
    Ok((None, Some(r)))
}

fn parse_body<'a>(m: &mut Module, name: &str, head: &'a str, body: &[&'a str]) -> R<Func> {
    let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
    let mut p = P_::new(head);
    // skip to @name(
    loop { if p.peek() == b'@' { break; } if p.peek() == b'"' { return Err("attr".into()); } match p.peek() { b'(' => p.skip_parens(), b'{' | b'[' | b'<' | b'%' => { p.ty(m)?; } _ => { if p.word().is_empty() { p.i += 1; } } } }
    p.i += 1;
    p.ident();
    p.expect("(")?;
    let mut params = vec![];
    let mut unnamed = 0u32;
    let mut vararg = false;
    if !p.eat(")") {
        loop {
            if p.eat("...") { vararg = true; p.expect(")")?; break; }
            p.ty(m)?;
            p.skip_attrs();
            if p.peek() == b'%' { p.i += 1; let n = p.ident(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } let r = f.reg(n); params.push(r); } else { return Err(format!("param {:?}", p.ctx())); }
            if p.eat(")") { break; }
            p.expect(",")?;
        }
    }
    let _ = vararg;
    // blocks
    let mut labels: Vec<(&'a str, usize)> = vec![];
    let entry_name: &'a str = Box::leak(unnamed.to_string().into_boxed_str());
    let lab = |l: &'a str| -> Option<&'a str> {
        let b = l.as_bytes();
        if b.is_empty() || b[0] == b' ' || b[0] == b'\t' || b[0] == b'}' || b[0] == b';' { return None; }
        if b[0] == b'"' { let e = l[1..].find('"').unwrap(); return Some(&l[1..1 + e]); }
        l.find(':').map(|e| &l[..e])
    };
    for (i, l) in body.iter().enumerate() {
        if let Some(n) = lab(l) { labels.push((n, i)); }
        else if i == 0 || labels.is_empty() { if labels.is_empty() && !l.trim().is_empty() { labels.push((entry_name, usize::MAX)); } }
    }
    for (i, (n, _)) in labels.iter().enumerate() { f.blocks.insert(n, i as u32); }
    let mut blocks: Vec<Block> = vec![];
    let mut ninstr = 0;
    let mut i = 0;
    if labels[0].1 == usize::MAX { blocks.push(Block::default()); }
    while i < body.len() {
        let l = body[i];
        if lab(l).is_some() { blocks.push(Block::default()); i += 1; continue; }
        if l.trim().is_empty() { i += 1; continue; }
        // join multi-line switch
        let mut end = i + 1;
        if l.trim_start().starts_with("switch ") && !l.contains(']') { while !body[end - 1].contains(']') || end == i + 1 { end += 1; } }
        let st = body[i].as_ptr();
        let last = body[end - 1];
        let len = last.as_ptr() as usize + last.len() - st as usize;
        let text: &'a str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(st, len)) };
        let mut p = P_::new(text);
        match instr(&mut p, m, &mut f) {
            Ok((Some(phi), _)) => blocks.last_mut().unwrap().phis.push(phi),
            Ok((None, Some(ins))) => { ninstr += 1; blocks.last_mut().unwrap().ins.push(ins) }
            Ok(_) => {}
            Err(e) => { blocks.last_mut().unwrap().ins.push(I::Bad(format!("{} in {}: {}", e, name, text))); }
        }
        i = end;
    }
    Ok(Func { name: name.to_string(), params, blocks, nregs: f.regs.len() as u32, ninstr })
}

fn at_name(l: &str) -> String {
    // first '@' outside quotes/attrs
    let i = l.find('@').unwrap();
    let mut p = P_::new(l);
    p.i = i + 1;
    p.ident().to_string()
}

pub fn parse(text: &str) -> R<Module> {
    let mut m = Module::default();
    let lines: Vec<&str> = text.lines().collect();
    let mut gl: Vec<(usize, String)> = vec![];
    let mut defs: Vec<(usize, usize, u32)> = vec![];
    // pass 1: names
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') { gl.push((i, at_name(l))); }
        else if l.starts_with("declare ") { let n = at_name(l); let id = m.fnames.len() as u32; m.fidx.insert(n.clone(), id); m.fnames.push(n); m.funcs.push(None); }
        else if l.starts_with("define ") {
            let n = at_name(l);
            let id = m.fnames.len() as u32;
            m.fidx.insert(n.clone(), id);
            m.fnames.push(n);
            m.funcs.push(None);
            let s = i;
            while lines[i] != "}" { i += 1; }
            defs.push((s, i, id));
        }
        else if l.starts_with('%') {
            let mut p = P_::new(l);
            p.i = 1;
            let n = p.ident().to_string();
            p.expect("=")?; p.expect("type")?;
            let t = if p.eat("opaque") { Ty::Void } else { p.ty(&m)? };
            m.types.insert(n, t);
        }
        i += 1;
    }
    // globals
    let mut inits: Vec<(u32, Ty, usize, usize)> = vec![];
    for (li, n) in &gl {
        let l = lines[*li];
        let mut p = P_::new(l);
        p.i = 1;
        p.ident();
        p.expect("=")?;
        let mut external = false;
        let mut constant = false;
        let mut alias = false;
        loop {
            let w = p.word();
            match w { "" => return Err(format!("global {}", l)), "external" | "extern_weak" => external = true, "global" => break, "constant" => { constant = true; break; } "alias" => { alias = true; break; } _ => p.skip_parens() }
        }
        if alias {
            // type [, functype args], ptr @target
            let e = l.rfind('@').unwrap();
            let mut q = P_::new(l);
            q.i = e + 1;
            let t = q.ident().to_string();
            m.aliases.insert(n.clone(), t);
            continue;
        }
        let t = p.ty(&m)?;
        let id = m.globals.len() as u32;
        let addr = ((id as u64) + 1) << 32;
        let size = t.size();
        m.globals.push(Global { name: n.clone(), addr, size, constant, bytes: vec![0; size as usize], external });
        m.gidx.insert(n.clone(), id);
        if !external { inits.push((id, t, *li, p.i)); }
    }
    // resolve alias chains
    for k in m.aliases.keys().cloned().collect::<Vec<_>>() { let mut t = m.aliases[&k].clone(); while let Some(u) = m.aliases.get(&t) { t = u.clone(); } m.aliases.insert(k, t); }
    for (id, t, li, pos) in inits {
        let mut p = P_::new(lines[li]);
        p.i = pos;
        let v = konst(&mut p, &mut m, &t).map_err(|e| format!("{} (global {})", e, m.globals[id as usize].name))?;
        let mut b = vec![0u8; t.size() as usize + 16];
        init_bytes(&t, &v, &mut b);
        b.truncate(t.size() as usize);
        m.globals[id as usize].bytes = b;
    }
    for (s, e, id) in defs {
        let name = m.fnames[id as usize].clone();
        let f = parse_body(&mut m, &name, lines[s], &lines[s + 1..e]).map_err(|e| format!("{} in {}", e, name))?;
        m.funcs[id as usize] = Some(f);
    }
    Ok(m)
}
