//! Parser for the subset of textual LLVM IR that rustc emits.
//! Function bodies are parsed lazily, the first time they are called.

use crate::expr::Op;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

fn round(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().min(16),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                round(b, b.next_power_of_two().min(16))
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !packed {
                        o = round(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    round(o, self.align())
                }
            }
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((w * n + 7) / 8) as u64,
                _ => *n as u64 * t.size(),
            },
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = round(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field out of range")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn lanes(&self) -> (u32, u32) {
        // (lanes or 0 for a scalar, bits of an element)
        match self {
            Ty::Vec(n, t) => (*n, t.bits()),
            t => (0, t.bits()),
        }
    }
}

/// Constants before the addresses of globals are known.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Zero,
    Glob(String),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Off(Box<Cst>, i64),
    Sub(Box<Cst>, Box<Cst>),
    Splat(Box<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Rc<(Ty, Cst)>),
    /// Resolved scalar constant.
    K(u128),
    Bad,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bits,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(Rc<str>),
    Ptr(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u32, lanes: u32, a: Opnd, b: Opnd, d: u32 },
    Icmp { p: Pred, w: u32, lanes: u32, a: Opnd, b: Opnd, d: u32 },
    Cast { k: Cast, from: Ty, to: Ty, a: Opnd, d: u32 },
    /// Floating point, on concrete values only (`aw`: width of the operands, `w`: of the result).
    Float { op: String, aw: u32, w: u32, a: Opnd, b: Opnd, d: u32 },
    Load { ty: Ty, p: Opnd, d: u32 },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)>, d: u32 },
    Alloca { size: u64, align: u64, n: Option<Opnd>, d: u32 },
    Select { ty: Ty, clanes: u32, c: Opnd, a: Opnd, b: Opnd, d: u32 },
    Call { f: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, d: Option<u32>, normal: Option<u32> },
    ExtractValue { a: Opnd, idx: Vec<u32>, d: u32 },
    InsertValue { ty: Ty, a: Opnd, vty: Ty, v: Opnd, idx: Vec<u32>, d: u32 },
    ExtractElement { a: Opnd, i: Opnd, d: u32 },
    InsertElement { ty: Ty, a: Opnd, v: Opnd, i: Opnd, d: u32 },
    Shuffle { ty: Ty, a: Opnd, b: Opnd, mask: Vec<u32>, d: u32 },
    Rmw { op: String, ty: Ty, p: Opnd, v: Opnd, d: u32 },
    CmpXchg { ty: Ty, p: Opnd, e: Opnd, n: Opnd, d: u32 },
    Copy { ty: Ty, a: Opnd, d: u32 },
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Opnd, u32)>)>,
    pub code: Vec<I>,
}

pub struct Func {
    pub name: Rc<str>,
    pub pretty: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub align: u64,
}

pub struct Module {
    pub text: Rc<String>,
    /// name -> (start of the `define` line, end of the body, comment above)
    pub funcs: HashMap<Rc<str>, (usize, usize, Rc<str>)>,
    pub decls: Vec<String>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, String)>,
}

pub struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at: {}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        let e = (self.i + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[self.i..e]).into_owned()
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' {
                self.i += 1;
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// Name after a sigil (`%`, `@`), which has been consumed.
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'-' | b'$') {
                    self.i += 1;
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn num(&mut self) -> R<u64> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|_| format!("number at: {}", self.rest()))
    }
    /// Skips a balanced group that starts here with an opening bracket.
    fn skip_group(&mut self) {
        let mut depth = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' | b'[' | b'{' | b'<' => depth += 1,
                b')' | b']' | b'}' | b'>' => {
                    depth -= 1;
                    if depth == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }

    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.num()?;
                if self.word() != "x" {
                    return Err("array type".into());
                }
                let t = self.ty()?;
                self.expect(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop {
                        v.push(self.ty()?);
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}')?;
                }
                Ok(Ty::Struct(Rc::new(v), false))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    if let Ty::Struct(v, _) = t {
                        return Ok(Ty::Struct(v, true));
                    }
                    return Err("packed struct".into());
                }
                let n = self.num()?;
                if self.word() != "x" {
                    return Err("vector type".into());
                }
                let t = self.ty()?;
                self.expect(b'>')?;
                Ok(Ty::Vec(n as u32, Rc::new(t)))
            }
            _ => {
                let w = self.word();
                if let Some(n) = w.strip_prefix('i') {
                    if let Ok(n) = n.parse::<u32>() {
                        return Ok(Ty::Int(n));
                    }
                }
                match w {
                    "ptr" => {
                        if self.peek_word() == "addrspace" {
                            self.word();
                            self.skip_group();
                        }
                        Ok(Ty::Ptr)
                    }
                    "void" => Ok(Ty::Void),
                    "float" => Ok(Ty::F32),
                    "double" => Ok(Ty::F64),
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => Ok(Ty::Other),
                    _ => Err(format!("type '{}' at: {}", w, self.rest())),
                }
            }
        }
    }

    fn bytes_lit(&mut self) -> R<Vec<u8>> {
        // at the opening quote
        self.expect(b'"')?;
        let mut out = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return Ok(out),
                b'\\' => {
                    if self.s[self.i] == b'\\' {
                        out.push(b'\\');
                        self.i += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                        out.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.i += 2;
                    }
                }
                c => out.push(c),
            }
        }
    }

    pub fn cst(&mut self, ty: &Ty) -> R<Cst> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                Ok(Cst::Glob(self.name()))
            }
            b'{' | b'[' | b'<' => {
                if c == b'<' && self.s.get(self.i + 1) == Some(&b'{') {
                    self.i += 1;
                    let r = self.cst(ty)?;
                    self.expect(b'>')?;
                    return Ok(r);
                }
                let close = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                self.i += 1;
                let mut v = vec![];
                if !self.eat(close) {
                    loop {
                        let t = self.ty()?;
                        let c = self.cst(&t)?;
                        v.push((t, c));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(close)?;
                }
                Ok(Cst::Agg(v))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Ok(Cst::Bytes(self.bytes_lit()?))
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                if matches!(ty, Ty::F32 | Ty::F64) {
                    if let Some(h) = w.strip_prefix("0x") {
                        let bits = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                        if *ty == Ty::F32 {
                            return Ok(Cst::Int((f64::from_bits(bits) as f32).to_bits() as u128));
                        }
                        return Ok(Cst::Int(bits as u128));
                    }
                    // decimal, possibly with an exponent sign split off
                    let mut s = w.to_string();
                    if s.ends_with('e') && self.peek() == b'+' {
                        self.i += 1;
                        s.push_str(self.word());
                    }
                    let f: f64 = s.parse().map_err(|_| format!("float {s}"))?;
                    return Ok(Cst::Int(if *ty == Ty::F32 {
                        (f as f32).to_bits() as u128
                    } else {
                        f.to_bits() as u128
                    }));
                }
                let v = if let Some(p) = w.strip_prefix('-') {
                    p.parse::<u128>().map_err(|e| e.to_string())?.wrapping_neg()
                } else {
                    w.parse::<u128>().map_err(|e| format!("{e} {w}"))?
                };
                let b = ty.bits();
                Ok(Cst::Int(if b == 0 { v } else { v & crate::expr::mask(b) }))
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(Cst::Zero),
                    "true" => Ok(Cst::Int(1)),
                    "false" => Ok(Cst::Int(0)),
                    "splat" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let c = self.cst(&t)?;
                        self.expect(b')')?;
                        Ok(Cst::Splat(Box::new(c)))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let c = self.cst(&t)?;
                        if self.word() != "to" {
                            return Err("cast expr".into());
                        }
                        self.ty()?;
                        self.expect(b')')?;
                        Ok(c)
                    }
                    "sub" | "add" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(')?;
                        let t = self.ty()?;
                        let a = self.cst(&t)?;
                        self.expect(b',')?;
                        let t2 = self.ty()?;
                        let b = self.cst(&t2)?;
                        self.expect(b')')?;
                        if w == "sub" {
                            Ok(Cst::Sub(Box::new(a), Box::new(b)))
                        } else if let Cst::Int(k) = b {
                            Ok(Cst::Off(Box::new(a), k as i64))
                        } else {
                            Err("add expr".into())
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            self.word();
                            if self.peek() == b'(' && false {
                                break;
                            }
                        }
                        // `inrange(-16, 32)` is a word followed by a group
                        let save = self.i;
                        self.expect(b'(')?;
                        if self.peek() == b'-' || self.peek().is_ascii_digit() {
                            self.i = save;
                            self.skip_group();
                            while self.peek() != b'(' {
                                self.word();
                            }
                            self.expect(b'(')?;
                        }
                        let t = self.ty()?;
                        self.expect(b',')?;
                        let pt = self.ty()?;
                        let base = self.cst(&pt)?;
                        let mut off = 0i64;
                        let mut cur = t;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty()?;
                            let c = self.cst(&it)?;
                            let k = match c {
                                Cst::Int(k) => crate::expr::sext(k, it.bits()) as i64,
                                Cst::Zero => 0,
                                _ => return Err("gep index".into()),
                            };
                            if first {
                                off += k * cur.size() as i64;
                                first = false;
                            } else {
                                let (o, t) = cur.field(k as u64);
                                off += o as i64;
                                cur = t;
                            }
                        }
                        self.expect(b')')?;
                        Ok(Cst::Off(Box::new(base), off))
                    }
                    _ => Err(format!("constant '{}' at: {}", w, self.rest())),
                }
            }
        }
    }
}

const OPERAND_WORDS: &[&str] = &[
    "null", "undef", "poison", "zeroinitializer", "none", "true", "false", "splat", "inttoptr", "ptrtoint", "bitcast",
    "trunc", "zext", "sub", "add", "getelementptr", "ptrtoaddr", "addrspacecast",
];

pub fn load(text: String) -> R<Module> {
    let text = Rc::new(text);
    let mut m = Module {
        text: text.clone(),
        funcs: HashMap::new(),
        decls: vec![],
        globals: vec![],
        aliases: vec![],
    };
    let mut pos = 0usize;
    let mut comment: &str = "";
    let b = text.as_bytes();
    while pos < b.len() {
        let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
        let line = &text[pos..end];
        if line.starts_with("define ") {
            let close = text[pos..].find("\n}").map(|x| pos + x + 2).ok_or("unterminated function")?;
            let at = line.find('@').ok_or("define without name")?;
            let mut c = Cur::new(&line[at + 1..]);
            let name: Rc<str> = c.name().into();
            let pretty: Rc<str> = comment.into();
            m.funcs.insert(name, (pos, close, pretty));
            comment = "";
            pos = close + 1;
            continue;
        } else if line.starts_with("declare ") {
            let at = line.find('@').unwrap();
            let mut c = Cur::new(&line[at + 1..]);
            m.decls.push(c.name());
        } else if line.starts_with('@') {
            let mut c = Cur::new(&line[1..]);
            let name = c.name();
            c.expect(b'=')?;
            let mut external = false;
            loop {
                let w = c.word();
                match w {
                    "external" | "extern_weak" => external = true,
                    "global" | "constant" | "alias" => {
                        if w == "alias" {
                            c.ty()?;
                            c.expect(b',')?;
                            c.ty()?;
                            if let Cst::Glob(t) = c.cst(&Ty::Ptr)? {
                                m.aliases.push((name.clone(), t));
                            }
                            break;
                        }
                        let ty = c.ty().map_err(|e| format!("global {name}: {e}"))?;
                        let init = if external {
                            None
                        } else {
                            Some(c.cst(&ty).map_err(|e| format!("global {name}: {e}"))?)
                        };
                        let mut align = ty.align();
                        while c.eat(b',') {
                            if c.eat_word("align") {
                                align = c.num()?;
                            } else {
                                break;
                            }
                        }
                        m.globals.push(Global { name: name.clone(), ty, init, align });
                        break;
                    }
                    "" => {
                        if c.peek() == b'(' {
                            c.skip_group();
                        } else {
                            return Err(format!("global {name}: {}", c.rest()));
                        }
                    }
                    _ => {}
                }
            }
        } else if let Some(c) = line.strip_prefix("; ") {
            if !c.starts_with("Function Attrs") {
                comment = c;
            }
        } else if line.is_empty() {
            comment = "";
        }
        pos = end + 1;
    }
    Ok(m)
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, c: &mut Cur, ty: &Ty) -> R<Opnd> {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return Ok(Opnd::R(self.reg(&n)));
        }
        let k = c.cst(ty)?;
        Ok(match (&k, ty) {
            (Cst::Int(v), Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) => Opnd::K(*v),
            (Cst::Zero, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) => Opnd::K(0),
            _ => Opnd::C(Rc::new((ty.clone(), k))),
        })
    }
    fn tyop(&mut self, c: &mut Cur) -> R<(Ty, Opnd)> {
        let t = c.ty()?;
        let o = self.opnd(c, &t)?;
        Ok((t, o))
    }
    fn lab(&mut self, c: &mut Cur) -> R<u32> {
        let w = c.word();
        if w != "label" {
            return Err(format!("label expected, found {w}"));
        }
        c.expect(b'%')?;
        let n = c.name();
        Ok(self.label(&n))
    }
}

fn skip_flags(c: &mut Cur) {
    loop {
        match c.peek_word() {
            "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nneg" | "samesign" | "nusw" | "fast" | "nnan"
            | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "tail" | "musttail"
            | "notail" => {
                c.word();
            }
            _ => return,
        }
    }
}

fn skip_attrs(c: &mut Cur) {
    // Attribute words before an operand or a return type.
    loop {
        let p = c.peek();
        if p == b'"' {
            let _ = c.bytes_lit();
            if c.eat(b'=') {
                let _ = c.bytes_lit();
            }
            continue;
        }
        if p == b'#' {
            c.i += 1;
            c.word();
            continue;
        }
        if !p.is_ascii_lowercase() {
            return;
        }
        if p == b'c' && c.s.get(c.i + 1) == Some(&b'"') {
            return;
        }
        let w = c.peek_word();
        if OPERAND_WORDS.contains(&w) || w == "asm" {
            return;
        }
        c.word();
        if w == "align" && c.peek().is_ascii_digit() {
            let _ = c.num();
        } else if c.s.get(c.i) == Some(&b'(') {
            c.skip_group();
        }
    }
}

fn is_type_start(c: &mut Cur) -> bool {
    match c.peek() {
        b'[' | b'{' | b'<' => true,
        _ => {
            let w = c.peek_word();
            matches!(w, "ptr" | "void" | "float" | "double")
                || w.strip_prefix('i').map(|n| n.parse::<u32>().is_ok()).unwrap_or(false)
        }
    }
}

fn skip_ret_attrs(c: &mut Cur) {
    loop {
        if is_type_start(c) {
            return;
        }
        let p = c.peek();
        if p == b'"' {
            let _ = c.bytes_lit();
            continue;
        }
        let w = c.word();
        if w.is_empty() {
            return;
        }
        if w == "align" && c.peek().is_ascii_digit() {
            let _ = c.num();
        } else if c.s.get(c.i) == Some(&b'(') {
            c.skip_group();
        }
    }
}

fn bin_op(w: &str) -> Option<Op> {
    Some(match w {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        _ => return None,
    })
}

fn pred(w: &str) -> R<Pred> {
    Ok(match w {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        _ => return Err(format!("predicate {w}")),
    })
}

fn parse_call(fx: &mut FnCtx, c: &mut Cur, d: Option<u32>, invoke: bool) -> R<I> {
    skip_flags(c);
    skip_ret_attrs(c);
    let ret = c.ty()?;
    // Possible function type `(i64, ...)`.
    if c.peek() == b'(' {
        c.skip_group();
    }
    let f = match c.peek() {
        b'@' => {
            c.i += 1;
            Callee::Name(c.name().into())
        }
        b'%' => Callee::Ptr(fx.opnd(c, &Ty::Ptr)?),
        _ => {
            let w = c.peek_word();
            if w == "asm" {
                while c.peek() != b'(' {
                    if c.peek() == b'"' {
                        c.bytes_lit()?;
                    } else if c.eat(b',') {
                    } else {
                        c.word();
                    }
                }
                Callee::Asm
            } else {
                Callee::Ptr(fx.opnd(c, &Ty::Ptr)?)
            }
        }
    };
    c.expect(b'(')?;
    let mut args = vec![];
    let intrinsic_skip = match &f {
        Callee::Name(n) => n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg"),
        _ => false,
    };
    if !c.eat(b')') {
        if intrinsic_skip {
            // metadata arguments
            c.i -= 1;
            while c.s[c.i] != b'(' {
                c.i -= 1;
            }
            c.skip_group();
            return Ok(I::Nop);
        }
        loop {
            let t = c.ty()?;
            if t == Ty::Other {
                // metadata operand
                while !matches!(c.peek(), b',' | b')') {
                    c.i += 1;
                }
                args.push((t, Opnd::Bad));
            } else {
                skip_attrs(c);
                let o = fx.opnd(c, &t)?;
                args.push((t, o));
            }
            if !c.eat(b',') {
                break;
            }
        }
        c.expect(b')')?;
    }
    let mut normal = None;
    if invoke {
        // attributes / bundles until `to label`
        loop {
            if c.peek_word() == "to" {
                c.word();
                normal = Some(fx.lab(c)?);
                break;
            }
            match c.peek() {
                b'[' => c.skip_group(),
                b'#' => {
                    c.i += 1;
                    c.word();
                }
                0 => return Err("invoke without destination".into()),
                _ => {
                    if c.word().is_empty() {
                        c.i += 1;
                    }
                }
            }
        }
    }
    Ok(I::Call { f, args, ret, d, normal })
}

fn parse_instr(fx: &mut FnCtx, line: &str) -> R<I> {
    let mut c = Cur::new(line);
    let c = &mut c;
    let mut d = None;
    if c.peek() == b'%' {
        c.i += 1;
        let n = c.name();
        c.expect(b'=')?;
        d = Some(fx.reg(&n));
    }
    let dd = d.unwrap_or(0);
    let op = c.word();
    if let Some(o) = bin_op(op) {
        skip_flags(c);
        let t = c.ty()?;
        let a = fx.opnd(c, &t)?;
        c.expect(b',')?;
        let b = fx.opnd(c, &t)?;
        let (lanes, w) = t.lanes();
        return Ok(I::Bin { op: o, w, lanes, a, b, d: dd });
    }
    Ok(match op {
        "icmp" => {
            skip_flags(c);
            let p = pred(c.word())?;
            let t = c.ty()?;
            let a = fx.opnd(c, &t)?;
            c.expect(b',')?;
            let b = fx.opnd(c, &t)?;
            let (lanes, w) = t.lanes();
            I::Icmp { p, w, lanes, a, b, d: dd }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" => {
            skip_flags(c);
            let mut o = op.to_string();
            if op == "fcmp" {
                o.push_str(c.word());
            }
            let t = c.ty()?;
            let a = fx.opnd(c, &t)?;
            c.expect(b',')?;
            let b = fx.opnd(c, &t)?;
            let (lanes, aw) = t.lanes();
            if lanes != 0 {
                return Err(format!("vector {op}"));
            }
            let w = if op == "fcmp" { 1 } else { aw };
            I::Float { op: o, aw, w, a, b, d: dd }
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "fneg" => {
            skip_flags(c);
            let (from, a) = fx.tyop(c)?;
            let to = if op == "fneg" {
                from.clone()
            } else {
                if c.word() != "to" {
                    return Err("cast".into());
                }
                c.ty()?
            };
            let ((l, aw), (_, w)) = (from.lanes(), to.lanes());
            if l != 0 {
                return Err(format!("vector {op}"));
            }
            I::Float { op: op.to_string(), aw, w, a: a.clone(), b: a, d: dd }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            skip_flags(c);
            let (from, a) = fx.tyop(c)?;
            if c.word() != "to" {
                return Err("cast".into());
            }
            let to = c.ty()?;
            let k = match op {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "bitcast" => Cast::Bits,
                _ => {
                    let (f, t) = (from.lanes().1, to.lanes().1);
                    if f < t {
                        Cast::ZExt
                    } else if f > t {
                        Cast::Trunc
                    } else {
                        return Ok(I::Copy { ty: to, a, d: dd });
                    }
                }
            };
            I::Cast { k, from, to, a, d: dd }
        }
        "load" => {
            skip_flags(c);
            let ty = c.ty()?;
            c.expect(b',')?;
            let (_, p) = fx.tyop(c)?;
            I::Load { ty, p, d: dd }
        }
        "store" => {
            skip_flags(c);
            let (ty, v) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, p) = fx.tyop(c)?;
            I::Store { ty, v, p }
        }
        "getelementptr" => {
            skip_flags(c);
            let t = c.ty()?;
            c.expect(b',')?;
            let (bt, base) = fx.tyop(c)?;
            if matches!(bt, Ty::Vec(..)) {
                return Err("vector gep".into());
            }
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = t;
            let mut first = true;
            while c.eat(b',') {
                if c.peek() == b'!' {
                    break;
                }
                let (it, o) = fx.tyop(c)?;
                let w = it.bits();
                if first {
                    first = false;
                    match o {
                        Opnd::K(k) => off = off.wrapping_add((crate::expr::sext(k, w) as i64).wrapping_mul(cur.size() as i64)),
                        o => idx.push((o, w, cur.size() as i64)),
                    }
                } else {
                    match (&cur, o) {
                        (_, Opnd::K(k)) => {
                            let k = crate::expr::sext(k, w) as i64;
                            if let Ty::Struct(..) = cur {
                                let (o, t) = cur.field(k as u64);
                                off += o as i64;
                                cur = t;
                            } else {
                                let (_, t) = cur.field(0);
                                off = off.wrapping_add(k.wrapping_mul(t.size() as i64));
                                cur = t;
                            }
                        }
                        (Ty::Arr(_, t), o) | (Ty::Vec(_, t), o) => {
                            let t = (**t).clone();
                            idx.push((o, w, t.size() as i64));
                            cur = t;
                        }
                        _ => return Err("gep".into()),
                    }
                }
            }
            I::Gep { base, off, idx, d: dd }
        }
        "alloca" => {
            skip_flags(c);
            let t = c.ty()?;
            let mut n = None;
            let mut align = t.align();
            while c.eat(b',') {
                if c.eat_word("align") {
                    align = c.num()?;
                } else if c.peek() == b'!' {
                    break;
                } else {
                    n = Some(fx.tyop(c)?.1);
                }
            }
            I::Alloca { size: t.size(), align, n, d: dd }
        }
        "select" => {
            skip_flags(c);
            let (ct, cond) = fx.tyop(c)?;
            c.expect(b',')?;
            let (ty, a) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, b) = fx.tyop(c)?;
            I::Select { ty, clanes: ct.lanes().0, c: cond, a, b, d: dd }
        }
        "call" => parse_call(fx, c, d, false)?,
        "tail" | "musttail" | "notail" => {
            if c.word() != "call" {
                return Err("tail".into());
            }
            parse_call(fx, c, d, false)?
        }
        "invoke" => parse_call(fx, c, d, true)?,
        "extractvalue" => {
            let (_, a) = fx.tyop(c)?;
            let mut idx = vec![];
            while c.eat(b',') {
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.num()? as u32);
            }
            I::ExtractValue { a, idx, d: dd }
        }
        "insertvalue" => {
            let (ty, a) = fx.tyop(c)?;
            c.expect(b',')?;
            let (vty, v) = fx.tyop(c)?;
            let mut idx = vec![];
            while c.eat(b',') {
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.num()? as u32);
            }
            I::InsertValue { ty, a, vty, v, idx, d: dd }
        }
        "extractelement" => {
            let (_, a) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, i) = fx.tyop(c)?;
            I::ExtractElement { a, i, d: dd }
        }
        "insertelement" => {
            let (ty, a) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, v) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, i) = fx.tyop(c)?;
            I::InsertElement { ty, a, v, i, d: dd }
        }
        "shufflevector" => {
            let (ty, a) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, b) = fx.tyop(c)?;
            c.expect(b',')?;
            let mt = c.ty()?;
            let n = mt.lanes().0;
            let k = c.cst(&mt)?;
            let mask = match k {
                Cst::Zero => vec![0; n as usize],
                Cst::Agg(v) => v
                    .iter()
                    .map(|(_, x)| match x {
                        Cst::Int(k) => *k as u32,
                        _ => 0,
                    })
                    .collect(),
                Cst::Splat(x) => match *x {
                    Cst::Int(k) => vec![k as u32; n as usize],
                    _ => vec![0; n as usize],
                },
                _ => return Err("shuffle mask".into()),
            };
            I::Shuffle { ty, a, b, mask, d: dd }
        }
        "atomicrmw" => {
            skip_flags(c);
            let o = c.word().to_string();
            let (_, p) = fx.tyop(c)?;
            c.expect(b',')?;
            let (ty, v) = fx.tyop(c)?;
            I::Rmw { op: o, ty, p, v, d: dd }
        }
        "cmpxchg" => {
            c.eat_word("weak");
            skip_flags(c);
            let (_, p) = fx.tyop(c)?;
            c.expect(b',')?;
            let (ty, e) = fx.tyop(c)?;
            c.expect(b',')?;
            let (_, n) = fx.tyop(c)?;
            I::CmpXchg { ty, p, e, n, d: dd }
        }
        "fence" => I::Nop,
        "freeze" => {
            let (ty, a) = fx.tyop(c)?;
            I::Copy { ty, a, d: dd }
        }
        "br" => {
            if c.peek_word() == "label" {
                I::Br(fx.lab(c)?)
            } else {
                let (_, o) = fx.tyop(c)?;
                c.expect(b',')?;
                let a = fx.lab(c)?;
                c.expect(b',')?;
                let b = fx.lab(c)?;
                I::CondBr(o, a, b)
            }
        }
        "switch" => {
            let (t, v) = fx.tyop(c)?;
            c.expect(b',')?;
            let def = fx.lab(c)?;
            c.expect(b'[')?;
            let mut cases = vec![];
            while !c.eat(b']') {
                let (_, k) = fx.tyop(c)?;
                c.expect(b',')?;
                let l = fx.lab(c)?;
                match k {
                    Opnd::K(k) => cases.push((k, l)),
                    _ => return Err("switch case".into()),
                }
            }
            I::Switch { w: t.bits(), v, def, cases }
        }
        "ret" => {
            let t = c.ty()?;
            if t == Ty::Void {
                I::Ret(None)
            } else {
                let o = fx.opnd(c, &t)?;
                I::Ret(Some((t, o)))
            }
        }
        "unreachable" => I::Unreachable,
        _ => return Err(format!("instruction {op}")),
    })
}

pub fn parse_func(m: &Module, name: &str) -> R<Func> {
    let (st, en, pretty) = m.funcs.get(name).ok_or_else(|| format!("no function {name}"))?.clone();
    let text = &m.text[st..en];
    let first_end = text.find('\n').unwrap_or(text.len());
    let head = &text[..first_end];
    let at = head.find('@').unwrap();
    let mut c = Cur::new(&head[at + 1..]);
    let fname: Rc<str> = c.name().into();
    let mut fx = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
    let mut params = vec![];
    c.expect(b'(')?;
    let mut unnamed = 0;
    if !c.eat(b')') {
        loop {
            if c.peek() == b'.' {
                c.i += 3;
                break;
            }
            c.ty()?;
            skip_attrs(&mut c);
            if c.eat(b'%') {
                let n = c.name();
                if n.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed += 1;
                }
                params.push(fx.reg(&n));
            } else {
                let n = unnamed.to_string();
                unnamed += 1;
                params.push(fx.reg(&n));
            }
            if !c.eat(b',') {
                break;
            }
        }
    }
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<u32> = None;
    let mut cb = Block { phis: vec![], code: vec![] };
    macro_rules! flush {
        () => {
            if let Some(l) = cur {
                while blocks.len() <= l as usize {
                    blocks.push(None);
                }
                blocks[l as usize] = Some(std::mem::replace(&mut cb, Block { phis: vec![], code: vec![] }));
            }
        };
    }
    let body = &text[first_end..];
    let mut lines = body.lines().peekable();
    let mut entry = true;
    while let Some(line) = lines.next() {
        let tl = line.trim();
        if tl.is_empty() || tl.starts_with(';') || tl == "}" || tl.starts_with('#') {
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let lab = if let Some(r) = tl.strip_prefix('"') {
                r.split('"').next().unwrap().to_string()
            } else {
                tl.split(':').next().unwrap().to_string()
            };
            flush!();
            cur = Some(fx.label(&lab));
            entry = false;
            continue;
        }
        if cur.is_none() && entry {
            let n = unnamed.to_string();
            cur = Some(fx.label(&n));
            entry = false;
        }
        // join multi-line constructs
        let mut joined: String;
        let mut l: &str = tl;
        if tl.starts_with("switch") || tl.contains(" landingpad") || tl.starts_with("invoke") || tl.contains("= invoke") {
            joined = tl.to_string();
            if tl.starts_with("switch") {
                while !joined.contains(']') {
                    joined.push(' ');
                    joined.push_str(lines.next().unwrap().trim());
                }
            } else if tl.contains("landingpad") {
                while let Some(n) = lines.peek() {
                    let t = n.trim();
                    if t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter") {
                        lines.next();
                    } else {
                        break;
                    }
                }
            } else {
                while !joined.contains(" unwind label") {
                    joined.push(' ');
                    joined.push_str(lines.next().unwrap().trim());
                }
            }
            l = &joined;
        }
        // phi
        if let Some(eq) = l.find(" = phi ") {
            if l.starts_with('%') {
                let mut c = Cur::new(&l[1..]);
                let n = c.name();
                let d = fx.reg(&n);
                let mut c = Cur::new(&l[eq + 7..]);
                skip_flags(&mut c);
                let r: R<()> = (|| {
                    let t = c.ty()?;
                    let mut inc = vec![];
                    loop {
                        c.expect(b'[')?;
                        let o = fx.opnd(&mut c, &t)?;
                        c.expect(b',')?;
                        c.expect(b'%')?;
                        let n = c.name();
                        let lb = fx.label(&n);
                        c.expect(b']')?;
                        inc.push((o, lb));
                        if !c.eat(b',') || c.peek() != b'[' {
                            break;
                        }
                    }
                    cb.phis.push((d, t, inc));
                    Ok(())
                })();
                r.map_err(|e| format!("{fname}: {e}: {l}"))?;
                continue;
            }
        }
        let i = match parse_instr(&mut fx, l) {
            Ok(i) => i,
            Err(e) => I::Unsupported(format!("{e}: {l}")),
        };
        cb.code.push(i);
    }
    flush!();
    let n = fx.labels.len();
    let mut out = vec![];
    blocks.resize_with(n, || None);
    for b in blocks {
        out.push(b.unwrap_or(Block { phis: vec![], code: vec![I::Unsupported("missing block".into())] }));
    }
    Ok(Func { name: fname, pretty, params, nregs: fx.regs.len() as u32, blocks: out })
}
