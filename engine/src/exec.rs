//! The symbolic executor: an interpreter for LLVM IR that forks on symbolic
//! control flow and asks the solver which sides are feasible.

use crate::expr::{fold, mask, sext, Arena, Eid, Op};
use crate::ir::{self, Callee, Cast, Cst, Func, Module, Opnd, Pred, Ty, I};
use crate::mem::{Mem, NOSYM};
use crate::z3::{Answer, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

const FBASE: u64 = 0x10000;
const BASE: u64 = 0x100_0000;
const STACK: u64 = 8 << 20;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(Eid),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<V>,
    bb: u32,
    ip: u32,
    sp: u64,
    d: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<Eid>,
    model: Rc<Vec<u128>>,
    inputs: Vec<(Rc<str>, u32)>,
    obs: Vec<V>,
    steps: u64,
    depth: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Defined,
    Nop,
    Memcpy,
    Memset,
    Sat(bool, bool), // signed, sub
    Ovf(u8, bool),   // 0 add 1 sub 2 mul; signed
    MinMax(bool, bool),
    Cmp3(bool),
    Fsh(bool),
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitreverse,
    Abs,
    Trap,
    TlsAddr,
    IsConst,
    Malloc,
    Calloc,
    Realloc,
    Memalign,
    Memcmp,
    Strlen,
    Panic,
    Abort,
    SymAny,
    SymAssume,
    SymCheck,
    SymCover,
    SymObserve,
    SymConc,
    SymCase,
    RandKeys,
    ReduceOp(u8),
    Flt(u8), // index into FLOATS
    Same,
    Unknown,
}

struct FEntry {
    name: Rc<str>,
    pretty: Rc<str>,
    kind: Kind,
    f: Option<Rc<Func>>,
    entered: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub inputs: Vec<(String, u32, u128)>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct PathRec {
    pub inputs: Vec<(String, u32, u128)>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_concrete: u64,
    pub checks_solver: u64,
    pub check_names: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<PathRec>,
    /// Sampled instruction counts by function (--verbose).
    pub profile: BTreeMap<String, u64>,
    pub max_depth: u32,
    pub max_steps: u64,
}

pub struct Limits {
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_samples: usize,
    pub known: Vec<String>,
    pub case: u64,
    pub verbose: bool,
    pub mem_limit_kb: u64,
}

pub struct Exec {
    m: Module,
    fns: Vec<FEntry>,
    fn_ix: HashMap<Rc<str>, u32>,
    globs: HashMap<String, u64>,
    pub ar: Arena,
    pub solver: Solver,
    var_ids: HashMap<(u32, u32), u32>,
    init_mem: Mem,
    globals_end: u64,
    pub rep: Report,
    pub lim: Limits,
    pub stop: bool,
    pub pending: Vec<State>,
}

enum Step {
    Next,
    Jump(u32),
    Reload, // frame changed
    End,
}

type X<T> = Result<T, Halt>;

/// Reasons to leave the current path.
enum Halt {
    /// Path finished by an assumption, a panic or a recorded violation.
    Dead,
    /// The engine cannot continue: reported as an error, never as success.
    Err(String),
}

fn classify(name: &str, pretty: &str, defined: bool) -> Kind {
    if name.starts_with("llvm.") {
        let b = &name[5..];
        let p = |s: &str| b.starts_with(s);
        return if p("memcpy") || p("memmove") {
            Kind::Memcpy
        } else if p("memset") {
            Kind::Memset
        } else if p("lifetime") || p("assume") || p("experimental") || p("dbg") || p("invariant") || p("prefetch")
            || p("x86.sse2.pause") || p("donothing") || p("sideeffect") || p("va_")
        {
            Kind::Nop
        } else if p("uadd.sat") {
            Kind::Sat(false, false)
        } else if p("usub.sat") {
            Kind::Sat(false, true)
        } else if p("sadd.sat") {
            Kind::Sat(true, false)
        } else if p("ssub.sat") {
            Kind::Sat(true, true)
        } else if p("uadd.with") {
            Kind::Ovf(0, false)
        } else if p("usub.with") {
            Kind::Ovf(1, false)
        } else if p("umul.with") {
            Kind::Ovf(2, false)
        } else if p("sadd.with") {
            Kind::Ovf(0, true)
        } else if p("ssub.with") {
            Kind::Ovf(1, true)
        } else if p("smul.with") {
            Kind::Ovf(2, true)
        } else if p("umax") {
            Kind::MinMax(false, true)
        } else if p("umin") {
            Kind::MinMax(false, false)
        } else if p("smax") {
            Kind::MinMax(true, true)
        } else if p("smin") {
            Kind::MinMax(true, false)
        } else if p("ucmp") {
            Kind::Cmp3(false)
        } else if p("scmp") {
            Kind::Cmp3(true)
        } else if p("fshl") {
            Kind::Fsh(true)
        } else if p("fshr") {
            Kind::Fsh(false)
        } else if p("cttz") {
            Kind::Cttz
        } else if p("ctlz") {
            Kind::Ctlz
        } else if p("ctpop") {
            Kind::Ctpop
        } else if p("bswap") {
            Kind::Bswap
        } else if p("bitreverse") {
            Kind::Bitreverse
        } else if p("abs") {
            Kind::Abs
        } else if p("trap") || p("ubsantrap") {
            Kind::Trap
        } else if p("threadlocal.address") {
            Kind::TlsAddr
        } else if p("is.constant") {
            Kind::IsConst
        } else if p("vector.reduce.or") {
            Kind::ReduceOp(0)
        } else if p("vector.reduce.and") {
            Kind::ReduceOp(1)
        } else if p("vector.reduce.add") {
            Kind::ReduceOp(2)
        } else if p("vector.reduce.xor") {
            Kind::ReduceOp(3)
        } else if p("vector.reduce.mul") {
            Kind::ReduceOp(4)
        } else if p("vector.reduce.umin") {
            Kind::ReduceOp(5)
        } else if p("vector.reduce.umax") {
            Kind::ReduceOp(6)
        } else if p("vector.reduce.smin") {
            Kind::ReduceOp(7)
        } else if p("vector.reduce.smax") {
            Kind::ReduceOp(8)
        } else if p("expect") {
            Kind::Same
        } else if let Some(i) = FLOATS.iter().position(|f| p(f) && b[f.len()..].starts_with('.')) {
            Kind::Flt(i as u8)
        } else {
            Kind::Unknown
        };
    }
    let pn = pretty.trim();
    if pn == "core::panicking::panic_fmt" || name.ends_with("9panicking9panic_fmt") {
        return Kind::Panic;
    }
    if pn.starts_with("core::panicking::panic_nounwind")
        || pn.contains("handle_alloc_error")
        || pn == "std::process::abort"
        || pn.ends_with("rust_begin_unwind")
        || pn == "core::panicking::panic_cannot_unwind"
    {
        return Kind::Abort;
    }
    if pn.contains("hashmap_random_keys") {
        return Kind::RandKeys;
    }
    // Threads do not end during a run.
    if pn.contains("sys::thread_local::destructors") && pn.ends_with("::register") {
        return Kind::Nop;
    }
    match name {
        "malloc" => Kind::Malloc,
        "calloc" => Kind::Calloc,
        "realloc" => Kind::Realloc,
        "posix_memalign" => Kind::Memalign,
        "free" => Kind::Nop,
        "memcpy" | "memmove" => Kind::Memcpy,
        "memset" => Kind::Memset,
        "memcmp" | "bcmp" => Kind::Memcmp,
        "strlen" => Kind::Strlen,
        "abort" => Kind::Abort,
        "rsym_any" => Kind::SymAny,
        "rsym_assume" => Kind::SymAssume,
        "rsym_check" => Kind::SymCheck,
        "rsym_cover" => Kind::SymCover,
        "rsym_observe" => Kind::SymObserve,
        "rsym_concretize" => Kind::SymConc,
        "rsym_case" => Kind::SymCase,
        _ => {
            if defined {
                Kind::Defined
            } else {
                Kind::Unknown
            }
        }
    }
}

fn opnds(i: &mut I) -> Vec<&mut Opnd> {
    match i {
        I::Bin { a, b, .. } | I::Icmp { a, b, .. } | I::Float { a, b, .. } | I::Shuffle { a, b, .. } => vec![a, b],
        I::Cast { a, .. } | I::ExtractValue { a, .. } | I::Copy { a, .. } => vec![a],
        I::Load { p, .. } => vec![p],
        I::Store { v, p, .. } => vec![v, p],
        I::Gep { base, idx, .. } => {
            let mut r = vec![base];
            r.extend(idx.iter_mut().map(|x| &mut x.0));
            r
        }
        I::Alloca { n, .. } => n.iter_mut().collect(),
        I::Select { c, a, b, .. } => vec![c, a, b],
        I::Call { f, args, .. } => {
            let mut r: Vec<&mut Opnd> = args.iter_mut().map(|x| &mut x.1).collect();
            if let Callee::Ptr(o) = f {
                r.push(o);
            }
            r
        }
        I::InsertValue { a, v, .. } => vec![a, v],
        I::ExtractElement { a, i, .. } => vec![a, i],
        I::InsertElement { a, v, i, .. } => vec![a, v, i],
        I::Rmw { p, v, .. } => vec![p, v],
        I::CmpXchg { p, e, n, .. } => vec![p, e, n],
        I::CondBr(o, ..) => vec![o],
        I::Switch { v, .. } => vec![v],
        I::Ret(Some((_, o))) => vec![o],
        _ => vec![],
    }
}

/// Floating point intrinsics, on concrete values only.
const FLOATS: [&str; 25] = [
    "round", "roundeven", "rint", "nearbyint", "floor", "ceil", "trunc", "sqrt", "fabs", "copysign", "minnum", "maxnum",
    "minimum", "maximum", "minimumnum", "maximumnum", "fma", "fmuladd", "fptoui.sat", "fptosi.sat", "pow", "powi", "exp",
    "log", "log2",
];

fn float_fn(op: &str, aw: u32, w: u32, x: [u64; 3]) -> u64 {
    let get = |v: u64| if aw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let (a, b, c) = (get(x[0]), get(x[1]), get(x[2]));
    let max = if w >= 64 { u64::MAX } else { (1 << w) - 1 };
    let r = match op {
        // Casts from floating point saturate, and so does this.
        "fptoui.sat" => return (a as u64).min(max),
        "fptosi.sat" => return ((a as i64).clamp(-((max >> 1) as i64) - 1, (max >> 1) as i64)) as u64 & max,
        "round" => a.round(),
        "roundeven" | "rint" | "nearbyint" => a.round_ties_even(),
        "floor" => a.floor(),
        "ceil" => a.ceil(),
        "trunc" => a.trunc(),
        // Correctly rounded also when done with doubles.
        "sqrt" => a.sqrt(),
        "fabs" => a.abs(),
        "copysign" => a.copysign(b),
        "minnum" | "minimumnum" => a.min(b),
        "maxnum" | "maximumnum" => a.max(b),
        "minimum" | "maximum" if a.is_nan() || b.is_nan() => f64::NAN,
        "minimum" => a.min(b),
        "maximum" => a.max(b),
        "fma" if aw == 32 => f32::mul_add(a as f32, b as f32, c as f32) as f64,
        "fma" => a.mul_add(b, c),
        "fmuladd" if aw == 32 => ((a as f32 * b as f32) + c as f32) as f64,
        "fmuladd" => a * b + c,
        "pow" if aw == 32 => (a as f32).powf(b as f32) as f64,
        "pow" => a.powf(b),
        "powi" => a.powi(x[1] as u32 as i32),
        "exp" if aw == 32 => (a as f32).exp() as f64,
        "exp" => a.exp(),
        "log" if aw == 32 => (a as f32).ln() as f64,
        "log" => a.ln(),
        "log2" if aw == 32 => (a as f32).log2() as f64,
        _ => a.log2(),
    };
    if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }
}

fn float(op: &str, aw: u32, w: u32, x: u64, y: u64) -> Option<u64> {
    let get = |v: u64, w: u32| match w {
        32 => f32::from_bits(v as u32) as f64,
        _ => f64::from_bits(v),
    };
    // Single precision operations on values widened to double and rounded back
    // are exact for + - * /.
    let put = |v: f64| match w {
        32 => (v as f32).to_bits() as u64,
        _ => v.to_bits(),
    };
    let sext = |v: u64, w: u32| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
    let mask = |v: u64, w: u32| if w >= 64 { v } else { v & ((1 << w) - 1) };
    if aw > 64 || w > 64 {
        return None;
    }
    let (f, g) = (get(x, aw), get(y, aw));
    Some(match op {
        "fadd" => put(f + g),
        "fsub" => put(f - g),
        "fmul" => put(f * g),
        "fdiv" => put(f / g),
        "frem" => put(f % g),
        "fneg" => put(-f),
        "fpext" | "fptrunc" => put(f),
        "uitofp" => match w {
            32 => (x as f32).to_bits() as u64,
            _ => (x as f64).to_bits(),
        },
        "sitofp" => match w {
            32 => (sext(x, aw) as f32).to_bits() as u64,
            _ => (sext(x, aw) as f64).to_bits(),
        },
        "fptoui" => mask(f as u64, w),
        "fptosi" => mask(f as i64 as u64, w),
        _ => {
            let un = f.is_nan() || g.is_nan();
            let r = match op.strip_prefix("fcmp")? {
                "oeq" => f == g,
                "one" => !un && f != g,
                "olt" => f < g,
                "ole" => f <= g,
                "ogt" => f > g,
                "oge" => f >= g,
                "ueq" => un || f == g,
                "une" => f != g,
                "ult" => un || f < g,
                "ule" => un || f <= g,
                "ugt" => un || f > g,
                "uge" => un || f >= g,
                "ord" => !un,
                "uno" => un,
                _ => return None,
            };
            r as u64
        }
    })
}

impl Exec {
    pub fn new(m: Module, lim: Limits, solver_timeout_ms: u32) -> Result<Exec, String> {
        let mut fns = vec![];
        let mut fn_ix: HashMap<Rc<str>, u32> = HashMap::new();
        let mut names: Vec<(Rc<str>, Rc<str>)> = m.funcs.iter().map(|(n, (_, _, p))| (n.clone(), p.clone())).collect();
        names.sort();
        for (n, p) in names {
            fn_ix.insert(n.clone(), fns.len() as u32);
            let kind = classify(&n, &p, true);
            fns.push(FEntry { name: n, pretty: p, kind, f: None, entered: false });
        }
        for d in &m.decls {
            let n: Rc<str> = d.as_str().into();
            if fn_ix.contains_key(&n) {
                continue;
            }
            fn_ix.insert(n.clone(), fns.len() as u32);
            let kind = classify(&n, &n, false);
            fns.push(FEntry { pretty: n.clone(), name: n, kind, f: None, entered: false });
        }
        let mut globs = HashMap::new();
        for (n, i) in &fn_ix {
            globs.insert(n.to_string(), FBASE + 16 * *i as u64);
        }
        if FBASE + 16 * fns.len() as u64 >= BASE {
            return Err("too many functions".into());
        }
        let mut at = BASE + 64;
        for g in &m.globals {
            if g.init.is_none() && !globs.contains_key(&g.name) {
                // extern_weak symbols resolve to null
                globs.insert(g.name.clone(), 0);
                continue;
            }
            let al = g.align.max(1).max(g.ty.align());
            at = (at + al - 1) / al * al;
            globs.insert(g.name.clone(), at);
            at += g.ty.size().max(1);
        }
        for (a, b) in &m.aliases {
            if let Some(&x) = globs.get(b) {
                globs.insert(a.clone(), x);
            }
        }
        let mut mem = Mem::new(BASE);
        let globals_end = (at + 4095) / 4096 * 4096;
        mem.sp = globals_end;
        mem.stack_end = mem.sp + STACK;
        mem.heap = mem.stack_end;
        mem.set_top(mem.heap);
        let mut ex = Exec {
            m,
            fns,
            fn_ix,
            globs,
            ar: Arena::new(),
            solver: Solver::new(solver_timeout_ms),
            var_ids: HashMap::new(),
            init_mem: mem,
            globals_end,
            rep: Report::default(),
            lim,
            stop: false,
            pending: vec![],
        };
        let gl = std::mem::take(&mut ex.m.globals);
        let mut mem = ex.init_mem.clone();
        for g in &gl {
            if let Some(init) = &g.init {
                let a = ex.globs[&g.name];
                ex.init_cst(&mut mem, a, &g.ty, init)?;
            }
        }
        ex.init_mem = mem;
        Ok(ex)
    }

    fn cst_int(&self, c: &Cst) -> Result<u128, String> {
        Ok(match c {
            Cst::Int(k) => *k,
            Cst::Zero => 0,
            Cst::Glob(n) => *self.globs.get(n).ok_or_else(|| format!("unknown global {n}"))? as u128,
            Cst::Off(b, o) => (self.cst_int(b)? as u64).wrapping_add(*o as u64) as u128,
            Cst::Sub(a, b) => (self.cst_int(a)? as u64).wrapping_sub(self.cst_int(b)? as u64) as u128,
            _ => return Err("aggregate constant as scalar".into()),
        })
    }

    fn init_cst(&self, mem: &mut Mem, a: u64, ty: &Ty, c: &Cst) -> Result<(), String> {
        match (ty, c) {
            (_, Cst::Zero) => {}
            (_, Cst::Bytes(b)) => {
                for (i, x) in b.iter().enumerate() {
                    mem.put(a + i as u64, *x);
                }
            }
            (_, Cst::Agg(v)) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let (o, _) = ty.field(i as u64);
                    self.init_cst(mem, a + o, t, x)?;
                }
            }
            _ => {
                let v = self.cst_int(c)?;
                mem.write(a, ty.size().min(16) as usize, v);
            }
        }
        Ok(())
    }

    fn cst_v(&self, ty: &Ty, c: &Cst) -> Result<V, String> {
        match (ty, c) {
            (Ty::Arr(n, t), Cst::Zero) => {
                let z = self.cst_v(t, &Cst::Zero)?;
                Ok(V::A(Rc::new(vec![z; *n as usize])))
            }
            (Ty::Vec(n, t), Cst::Zero) => {
                let z = self.cst_v(t, &Cst::Zero)?;
                Ok(V::A(Rc::new(vec![z; *n as usize])))
            }
            (Ty::Vec(n, t), Cst::Splat(x)) => {
                let z = self.cst_v(t, x)?;
                Ok(V::A(Rc::new(vec![z; *n as usize])))
            }
            (Ty::Struct(ts, _), Cst::Zero) => {
                let mut v = vec![];
                for t in ts.iter() {
                    v.push(self.cst_v(t, &Cst::Zero)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (_, Cst::Agg(xs)) => {
                let mut v = vec![];
                for (t, x) in xs {
                    v.push(self.cst_v(t, x)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (_, Cst::Bytes(b)) => Ok(V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect()))),
            _ => Ok(V::C(self.cst_int(c)?)),
        }
    }

    fn get_func(&mut self, ix: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.fns[ix as usize].f {
            return Ok(f.clone());
        }
        let name = self.fns[ix as usize].name.clone();
        let mut f = ir::parse_func(&self.m, &name)?;
        // Resolve constants and callees.
        for b in &mut f.blocks {
            for (_, _, inc) in &mut b.phis {
                for (o, _) in inc {
                    self.resolve(o)?;
                }
            }
            for i in &mut b.code {
                if let I::Call { f: cal, .. } = i {
                    if let Callee::Name(n) = cal {
                        match self.globs.get(&**n) {
                            Some(a) => *cal = Callee::Ptr(Opnd::K(*a as u128)),
                            None => return Err(format!("unknown callee {n}")),
                        }
                    }
                }
                let mut err = None;
                for o in opnds(i) {
                    if let Err(e) = self.resolve(o) {
                        err = Some(e);
                    }
                }
                if let Some(e) = err {
                    *i = I::Unsupported(e);
                }
            }
        }
        let f = Rc::new(f);
        self.fns[ix as usize].f = Some(f.clone());
        Ok(f)
    }

    fn resolve(&self, o: &mut Opnd) -> Result<(), String> {
        if let Opnd::C(c) = o {
            if matches!(c.1, Cst::Glob(_) | Cst::Off(..) | Cst::Sub(..) | Cst::Int(_)) {
                let k = self.cst_int(&c.1)?;
                *o = Opnd::K(k);
            }
        }
        Ok(())
    }

    pub fn entered(&self) -> Vec<String> {
        let mut s: BTreeSet<String> = BTreeSet::new();
        for f in &self.fns {
            if f.entered {
                s.insert(if f.pretty.is_empty() { f.name.to_string() } else { f.pretty.to_string() });
            }
        }
        s.into_iter().collect()
    }

    pub fn initial(&mut self, harness: &str) -> Result<State, String> {
        let ix = *self.fn_ix.get(harness).ok_or_else(|| format!("no harness {harness}"))?;
        let f = self.get_func(ix)?;
        self.fns[ix as usize].entered = true;
        let mem = self.init_mem.clone();
        let sp = mem.sp;
        Ok(State {
            frames: vec![Frame { regs: vec![V::C(0); f.nregs as usize], f, bb: 0, ip: 0, sp, d: None, normal: None }],
            mem,
            pc: vec![],
            model: Rc::new(vec![]),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            depth: 0,
        })
    }

    // ---- values -------------------------------------------------------

    fn eid(&mut self, v: &V, w: u32) -> Eid {
        match v {
            V::C(k) => self.ar.cst(*k, w),
            V::E(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn wrap(&self, e: Eid) -> V {
        match self.ar.val(e) {
            Some(k) => V::C(k),
            None => V::E(e),
        }
    }
    fn ev(&self, fr: &Frame, o: &Opnd) -> X<V> {
        Ok(match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::K(k) => V::C(*k),
            Opnd::C(c) => self.cst_v(&c.0, &c.1).map_err(Halt::Err)?,
            Opnd::Bad => V::C(0),
        })
    }

    /// An integer of more than 128 bits (low, high); such values are kept concrete.
    fn wide_of(&mut self, st: &mut State, v: &V) -> X<(u128, u128)> {
        match v {
            V::A(x) => match (&x[..], x.len()) {
                ([V::C(lo), V::C(hi)], 2) => Ok((*lo, *hi)),
                _ => Err(Halt::Err("wide integer".into())),
            },
            V::C(k) => Ok((*k, 0)),
            V::E(e) => {
                let w = self.ar.w(*e);
                if w <= 64 {
                    return Ok((self.conc(st, v, w)? as u128, 0));
                }
                let (l, h) = (self.ar.extract(*e, 0, 64), self.ar.extract(*e, 64, w - 64));
                let (l, h) = (self.wrap(l), self.wrap(h));
                let h = self.conc(st, &h, w - 64)? as u128;
                let l = self.conc(st, &l, 64)? as u128;
                Ok((h << 64 | l, 0))
            }
        }
    }
    fn binop(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold(op, w, *x, *y));
        }
        let x = self.eid(a, w);
        let y = self.eid(b, w);
        let e = self.ar.bin(op, x, y);
        self.wrap(e)
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold(op, w, *x, *y) ^ neg as u128);
        }
        let x = self.eid(a, w);
        let y = self.eid(b, w);
        let mut e = self.ar.bin(op, x, y);
        if neg {
            e = self.ar.not1(e);
        }
        self.wrap(e)
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: &V) -> V {
        match a {
            V::C(x) => V::C(match k {
                Cast::Trunc => x & mask(tw),
                Cast::SExt => (sext(*x, fw) as u128) & mask(tw),
                _ => *x,
            }),
            V::E(e) => {
                let r = match k {
                    Cast::Trunc => self.ar.extract(*e, 0, tw),
                    Cast::SExt => self.ar.sext(*e, tw),
                    Cast::ZExt => self.ar.zext(*e, tw),
                    Cast::Bits => *e,
                };
                self.wrap(r)
            }
            V::A(_) => panic!("cast of aggregate"),
        }
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> V {
        match c {
            V::C(k) => {
                if *k != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::E(ce) => match ty {
                Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                    let (V::A(x), V::A(y)) = (a, b) else { panic!("select aggregate") };
                    let n = x.len();
                    let mut out = vec![];
                    for i in 0..n {
                        let (_, t) = ty.field(i as u64);
                        out.push(self.select(c, &x[i], &y[i], &t));
                    }
                    V::A(Rc::new(out))
                }
                _ => {
                    let w = ty.bits();
                    let x = self.eid(a, w);
                    let y = self.eid(b, w);
                    let e = self.ar.ite(*ce, x, y);
                    self.wrap(e)
                }
            },
            V::A(_) => panic!("vector condition"),
        }
    }

    // ---- memory -------------------------------------------------------

    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = ty.bits();
                if w > 128 {
                    return Err(Halt::Err(format!("load of {w} bits")));
                }
                let n = ((w + 7) / 8) as usize;
                if !st.mem.valid(a, n as u64) {
                    return Err(Halt::Err(format!("load of {n} bytes at invalid address {a:#x}")));
                }
                if let Some(v) = st.mem.read(a, n) {
                    return Ok(V::C(v & mask(w)));
                }
                let mut e: Option<Eid> = None;
                for i in 0..n {
                    let (b, s) = st.mem.get(a + i as u64);
                    let x = if s == NOSYM { self.ar.cst(b as u128, 8) } else { s };
                    e = Some(match e {
                        None => x,
                        Some(lo) => self.ar.concat(x, lo),
                    });
                }
                let mut e = e.unwrap();
                if w < 8 * n as u32 {
                    e = self.ar.extract(e, 0, w);
                }
                Ok(self.wrap(e))
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                // Element 0 in the least significant bits (little endian).
                let (n, tb) = (*n as u32, t.bits());
                let Ty::Int(_) = **t else { return Err(Halt::Err("load of a bit vector".into())) };
                let w = n * tb;
                let whole = self.load(st, a, &Ty::Int(w))?;
                let e = self.eid(&whole, w);
                let mut v = vec![];
                for i in 0..n {
                    let x = self.ar.extract(e, i * tb, tb);
                    v.push(self.wrap(x));
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, _) => self.load_agg(st, a, ty, *n),
            Ty::Vec(n, _) => self.load_agg(st, a, ty, *n as u64),
            Ty::Struct(ts, _) => self.load_agg(st, a, ty, ts.len() as u64),
            _ => Err(Halt::Err("load type".into())),
        }
    }
    fn load_agg(&mut self, st: &State, a: u64, ty: &Ty, n: u64) -> X<V> {
        let mut v = vec![];
        for i in 0..n {
            let (o, t) = ty.field(i);
            v.push(self.load(st, a + o, &t)?);
        }
        Ok(V::A(Rc::new(v)))
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> X<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, V::C(k)) => {
                let n = ((ty.bits() + 7) / 8) as usize;
                if n > 16 {
                    return Err(Halt::Err(format!("store of {n} bytes in one number")));
                }
                if !st.mem.valid(a, n as u64) {
                    return Err(Halt::Err(format!("store of {n} bytes at invalid address {a:#x}")));
                }
                st.mem.write(a, n, *k);
                Ok(())
            }
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, V::E(e)) => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as u32;
                if !st.mem.valid(a, n as u64) {
                    return Err(Halt::Err(format!("store of {n} bytes at invalid address {a:#x}")));
                }
                let e = self.ar.zext(*e, n * 8);
                for i in 0..n {
                    let b = self.ar.extract(e, 8 * i, 8);
                    match self.ar.val(b) {
                        Some(k) => st.mem.put(a + i as u64, k as u8),
                        None => st.mem.put_sym(a + i as u64, b),
                    }
                }
                Ok(())
            }
            (Ty::Vec(n, t), V::A(xs)) if t.bits() % 8 != 0 => {
                let tb = t.bits();
                let mut e: Option<Eid> = None;
                for x in xs.iter() {
                    let x = self.eid(x, tb);
                    e = Some(match e {
                        None => x,
                        Some(lo) => self.ar.concat(x, lo),
                    });
                }
                let v = self.wrap(e.unwrap());
                self.store(st, a, &Ty::Int(*n as u32 * tb), &v)
            }
            (_, V::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, t) = ty.field(i as u64);
                    self.store(st, a + o, &t, x)?;
                }
                Ok(())
            }
            _ => Err(Halt::Err("store type".into())),
        }
    }

    // ---- solver -------------------------------------------------------

    fn with_model(&self, st: &State, delta: &[(u32, u128)]) -> Rc<Vec<u128>> {
        let mut m = (*st.model).clone();
        for (v, k) in delta {
            let i = *v as usize;
            if m.len() <= i {
                m.resize(i + 1, 0);
            }
            m[i] = *k;
        }
        Rc::new(m)
    }

    fn ask(&mut self, st: &State, c: Eid) -> X<Option<Rc<Vec<u128>>>> {
        match self.solver.check(&mut self.ar, &st.pc, c) {
            Answer::Unsat => Ok(None),
            Answer::Sat(d) => {
                let m = self.with_model(st, &d);
                // Defence in depth: the model must satisfy what was asked.
                let ok = self.ar.eval(c, &m) == 1 && st.pc.iter().all(|p| self.ar.eval_same(*p, &m) == 1);
                if !ok {
                    return Err(Halt::Err("solver model does not satisfy the path condition".into()));
                }
                Ok(Some(m))
            }
            Answer::Unknown(r) => Err(Halt::Err(format!("solver answered unknown: {r}"))),
        }
    }

    fn push_state(&mut self, mut st: State) {
        st.depth += 1;
        self.rep.forks += 1;
        self.rep.max_depth = self.rep.max_depth.max(st.depth);
        self.pending.push(st);
    }

    /// Value of a 1-bit condition on this path; forks if both are feasible.
    /// The forked state re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: &V) -> X<bool> {
        match c {
            V::C(k) => Ok(*k != 0),
            V::E(e) => {
                let e = *e;
                let v = self.ar.eval(e, &st.model) != 0;
                let ne = self.ar.not1(e);
                let (mine, other) = if v { (e, ne) } else { (ne, e) };
                if st.pc.contains(&mine) {
                    return Ok(v);
                }
                if let Some(m) = self.ask(st, other)? {
                    let mut o = st.clone();
                    o.pc.push(other);
                    o.model = m;
                    self.push_state(o);
                    st.pc.push(mine);
                    st.depth += 1;
                }
                Ok(v)
            }
            V::A(_) => Err(Halt::Err("aggregate condition".into())),
        }
    }

    /// Concrete value of `v` on this path; forks for the other values.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> X<u64> {
        match v {
            V::C(k) => Ok(*k as u64),
            V::E(e) => {
                let k = self.ar.eval(*e, &st.model);
                let kc = self.ar.cst(k, w);
                let eq = self.ar.bin(Op::Eq, *e, kc);
                let eqv = self.wrap(eq);
                let r = self.decide(st, &eqv)?;
                if !r {
                    return Err(Halt::Err("concretization".into()));
                }
                Ok(k as u64)
            }
            V::A(_) => Err(Halt::Err("aggregate pointer".into())),
        }
    }

    fn model_inputs(&self, st: &State, m: &[u128]) -> Vec<(String, u32, u128)> {
        st.inputs
            .iter()
            .map(|(n, id)| {
                let w = self.solver.var_w[id];
                (n.to_string(), w, m.get(*id as usize).copied().unwrap_or(0) & mask(w))
            })
            .collect()
    }

    fn violation(&mut self, st: &State, key: String, detail: String, m: &[u128]) {
        let inputs = self.model_inputs(st, m);
        let trace = st
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| if f.f.pretty.is_empty() { f.f.name.to_string() } else { f.f.pretty.to_string() })
            .collect();
        let known = self.lim.known.iter().any(|k| *k == key);
        if !self.rep.violations.iter().any(|v| v.key == key) {
            self.rep.violations.push(Violation { key, detail, inputs, trace });
        }
        if !known {
            self.stop = true;
        }
    }

    // ---- main loop ----------------------------------------------------

    pub fn over(&self) -> bool {
        Instant::now() >= self.lim.deadline
    }

    /// Runs one state to the end of its path; forks go to `self.pending`.
    pub fn run(&mut self, mut st: State) {
        let r = self.run_inner(&mut st);
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        match r {
            Ok(()) => {
                self.rep.paths += 1;
                let n = self.rep.paths;
                // Keep the first half of the budget, then thin out.
                let cap = self.lim.max_samples as u64;
                let keep = n <= cap / 2 || (n.is_power_of_two()) || (n % 97 == 0);
                if (self.rep.samples.len() as u64) < cap && keep {
                    let model = st.model.clone();
                    let mut obs = vec![];
                    for o in &st.obs {
                        obs.push(match o {
                            V::C(k) => *k as u64,
                            V::E(e) => self.ar.eval(*e, &model) as u64,
                            _ => 0,
                        });
                    }
                    let inputs = self.model_inputs(&st, &model);
                    self.rep.samples.push(PathRec { inputs, obs });
                }
            }
            Err(Halt::Dead) => self.rep.infeasible += 1,
            Err(Halt::Err(e)) => {
                let tr: Vec<String> = st.frames.iter().rev().take(6).map(|f| f.f.pretty.to_string()).collect();
                let e = format!("{e} [in {}]", tr.join(" < "));
                if self.lim.verbose {
                    eprintln!("rsym: error: {e}");
                }
                *self.rep.errors.entry(e).or_insert(0) += 1;
            }
        }
    }

    fn run_inner(&mut self, st: &mut State) -> X<()> {
        loop {
            let (f, mut bb, mut ip) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.bb, fr.ip)
            };
            loop {
                let ins = match f.blocks[bb as usize].code.get(ip as usize) {
                    Some(i) => i,
                    None => return Err(Halt::Err("fell off a block".into())),
                };
                st.steps += 1;
                self.rep.steps += 1;
                if self.lim.verbose && self.rep.steps % 211 == 0 {
                    *self.rep.profile.entry(f.pretty.to_string()).or_insert(0) += 1;
                }
                if st.steps & 0xffff == 0 {
                    if st.steps > self.lim.max_steps {
                        // Confirmed, or not, by the native replay's time limit.
                        let m = st.model.clone();
                        self.violation(st, "no_termination".into(), "a path exceeded the step limit".into(), &m);
                        return Err(Halt::Dead);
                    }
                    if self.over() {
                        self.stop = true;
                        return Err(Halt::Err("time limit reached".into()));
                    }
                }
                // Keep the frame position current: forks re-execute `ins`.
                {
                    let fr = st.frames.last_mut().unwrap();
                    fr.bb = bb;
                    fr.ip = ip;
                }
                match self.step(st, ins)? {
                    Step::Next => ip += 1,
                    Step::Jump(to) => {
                        self.phis(st, &f, bb, to)?;
                        bb = to;
                        ip = 0;
                    }
                    Step::Reload => break,
                    Step::End => return Ok(()),
                }
            }
        }
    }

    fn phis(&mut self, st: &mut State, f: &Rc<Func>, from: u32, to: u32) -> X<()> {
        let ph = &f.blocks[to as usize].phis;
        if ph.is_empty() {
            return Ok(());
        }
        let fr = st.frames.last_mut().unwrap();
        if ph.len() == 1 {
            let (d, _, inc) = &ph[0];
            let o = inc.iter().find(|x| x.1 == from).ok_or(Halt::Err("phi".into()))?;
            let v = self.ev(fr, &o.0)?;
            fr.regs[*d as usize] = v;
            return Ok(());
        }
        let mut vals = Vec::with_capacity(ph.len());
        for (d, _, inc) in ph {
            let o = inc.iter().find(|x| x.1 == from).ok_or(Halt::Err("phi".into()))?;
            vals.push((*d, self.ev(fr, &o.0)?));
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        Ok(())
    }

    fn set(st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    fn lanes_of(v: &V) -> X<Rc<Vec<V>>> {
        match v {
            V::A(x) => Ok(x.clone()),
            _ => Err(Halt::Err("vector expected".into())),
        }
    }

    fn step(&mut self, st: &mut State, ins: &I) -> X<Step> {
        macro_rules! ev {
            ($o:expr) => {
                self.ev(st.frames.last().unwrap(), $o)?
            };
        }
        match ins {
            I::Bin { op, w, lanes, a, b, d } => {
                let (x, y) = (ev!(a), ev!(b));
                let v = if *w > 128 {
                    if *lanes != 0 || *w > 256 {
                        return Err(Halt::Err(format!("{w}-bit arithmetic")));
                    }
                    let (x, y) = (self.wide_of(st, &x)?, self.wide_of(st, &y)?);
                    let r = wide(*op, *w, x, y).ok_or_else(|| Halt::Err(format!("{w}-bit {op:?}")))?;
                    wide_v(r)
                } else if *lanes == 0 {
                    if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                        let z = self.cmp(Pred::Eq, *w, &y, &V::C(0));
                        if self.decide(st, &z)? {
                            return Err(Halt::Err("division by zero reached at IR level".into()));
                        }
                    }
                    self.binop(*op, *w, &x, &y)
                } else {
                    let (x, y) = (Self::lanes_of(&x)?, Self::lanes_of(&y)?);
                    V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.binop(*op, *w, p, q)).collect()))
                };
                Self::set(st, *d, v);
            }
            I::Icmp { p, w, lanes, a, b, d } => {
                let (x, y) = (ev!(a), ev!(b));
                if *w > 128 {
                    return Err(Halt::Err(format!("{w}-bit comparison")));
                }
                let v = if *lanes == 0 {
                    self.cmp(*p, *w, &x, &y)
                } else {
                    let (x, y) = (Self::lanes_of(&x)?, Self::lanes_of(&y)?);
                    V::A(Rc::new(x.iter().zip(y.iter()).map(|(m, n)| self.cmp(*p, *w, m, n)).collect()))
                };
                Self::set(st, *d, v);
            }
            I::Float { op, aw, w, a, b, d } => {
                let (x, y) = (ev!(a), ev!(b));
                let (x, y) = (self.conc(st, &x, *aw)?, self.conc(st, &y, *aw)?);
                let v = float(op, *aw, *w, x, y).ok_or_else(|| Halt::Err(format!("float operation {op}")))?;
                Self::set(st, *d, V::C(v as u128));
            }
            I::Cast { k, from, to, a, d } => {
                let x = ev!(a);
                let (fl, fw) = from.lanes();
                let (tl, tw) = to.lanes();
                let v = if fl == 0 && tl == 0 && (fw > 128 || tw > 128) {
                    // Only seen where 128-bit numbers are divided by a constant.
                    let x = self.wide_of(st, &x)?;
                    match k {
                        Cast::ZExt if tw <= 256 => wide_v(x),
                        Cast::Trunc if tw <= 128 => V::C(x.0 & crate::expr::mask(tw)),
                        _ => return Err(Halt::Err(format!("cast from {fw} to {tw} bits"))),
                    }
                } else if fl == 0 && tl == 0 {
                    self.cast(*k, fw, tw, &x)
                } else if fl == tl && *k != Cast::Bits {
                    let x = Self::lanes_of(&x)?;
                    V::A(Rc::new(x.iter().map(|p| self.cast(*k, fw, tw, p)).collect()))
                } else if *k == Cast::Bits {
                    // Flatten to bits, then split.
                    let total = if fl == 0 { fw } else { fl * fw };
                    if total > 128 {
                        return Err(Halt::Err("wide bitcast".into()));
                    }
                    let e = if fl == 0 {
                        self.eid(&x, fw)
                    } else {
                        let x = Self::lanes_of(&x)?;
                        let mut e = self.eid(&x[0], fw);
                        for p in &x[1..] {
                            let h = self.eid(p, fw);
                            e = self.ar.concat(h, e);
                        }
                        e
                    };
                    if tl == 0 {
                        self.wrap(e)
                    } else {
                        let mut out = vec![];
                        for i in 0..tl {
                            let p = self.ar.extract(e, i * tw, tw);
                            out.push(self.wrap(p));
                        }
                        V::A(Rc::new(out))
                    }
                } else {
                    return Err(Halt::Err("vector cast".into()));
                };
                Self::set(st, *d, v);
            }
            I::Load { ty, p, d } => {
                let pv = ev!(p);
                let v = match &pv {
                    V::C(a) => self.load(st, *a as u64, ty)?,
                    V::E(e) => match self.table_load(st, *e, ty)? {
                        Some(v) => v,
                        None => {
                            let a = self.conc(st, &pv, 64)?;
                            self.load(st, a, ty)?
                        }
                    },
                    _ => return Err(Halt::Err("pointer".into())),
                };
                Self::set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let pv = ev!(p);
                let a = self.conc(st, &pv, 64)?;
                let v = ev!(v);
                self.store(st, a, ty, &v)?;
            }
            I::Gep { base, off, idx, d } => {
                let mut cur = ev!(base);
                if *off != 0 {
                    cur = self.binop(Op::Add, 64, &cur, &V::C(*off as u64 as u128));
                }
                for (o, w, scale) in idx {
                    let x = ev!(o);
                    let x = if *w < 64 { self.cast(Cast::SExt, *w, 64, &x) } else { x };
                    let s = self.binop(Op::Mul, 64, &x, &V::C(*scale as u64 as u128));
                    cur = self.binop(Op::Add, 64, &cur, &s);
                }
                Self::set(st, *d, cur);
            }
            I::Alloca { size, align, n, d } => {
                let k = match n {
                    None => 1,
                    Some(o) => {
                        let v = ev!(o);
                        self.conc(st, &v, 64)?
                    }
                };
                let a = st.mem.alloca(size * k, *align).ok_or(Halt::Err("stack overflow".into()))?;
                Self::set(st, *d, V::C(a as u128));
            }
            I::Select { ty, clanes, c, a, b, d } => {
                let (c, a, b) = (ev!(c), ev!(a), ev!(b));
                let v = if *clanes == 0 {
                    self.select(&c, &a, &b, ty)
                } else {
                    let (c, a, b) = (Self::lanes_of(&c)?, Self::lanes_of(&a)?, Self::lanes_of(&b)?);
                    let (_, t) = ty.field(0);
                    V::A(Rc::new((0..c.len()).map(|i| self.select(&c[i], &a[i], &b[i], &t)).collect()))
                };
                Self::set(st, *d, v);
            }
            I::ExtractValue { a, idx, d } => {
                let mut v = ev!(a);
                for i in idx {
                    let n = Self::lanes_of(&v)?[*i as usize].clone();
                    v = n;
                }
                Self::set(st, *d, v);
            }
            I::InsertValue { ty, a, v, idx, d, .. } => {
                let base = ev!(a);
                let v = ev!(v);
                let _ = ty;
                fn ins(base: &V, idx: &[u32], v: V) -> Option<V> {
                    if idx.is_empty() {
                        return Some(v);
                    }
                    if let V::A(x) = base {
                        let mut y = (**x).clone();
                        let k = idx[0] as usize;
                        y[k] = ins(&x[k], &idx[1..], v)?;
                        Some(V::A(Rc::new(y)))
                    } else {
                        None
                    }
                }
                let r = ins(&base, idx, v).ok_or(Halt::Err("insertvalue".into()))?;
                Self::set(st, *d, r);
            }
            I::ExtractElement { a, i, d } => {
                let v = Self::lanes_of(&ev!(a))?;
                let iv = ev!(i);
                let i = self.conc(st, &iv, 64)?;
                let x = v[i as usize].clone();
                Self::set(st, *d, x);
            }
            I::InsertElement { a, v, i, d, .. } => {
                let mut x = (*Self::lanes_of(&ev!(a))?).clone();
                let iv = ev!(i);
                let i = self.conc(st, &iv, 64)?;
                x[i as usize] = ev!(v);
                Self::set(st, *d, V::A(Rc::new(x)));
            }
            I::Shuffle { a, b, mask, d, .. } => {
                let x = Self::lanes_of(&ev!(a))?;
                let y = Self::lanes_of(&ev!(b))?;
                let n = x.len();
                let r = mask
                    .iter()
                    .map(|m| {
                        let m = *m as usize;
                        if m < n {
                            x[m].clone()
                        } else if m < n + y.len() {
                            y[m - n].clone()
                        } else {
                            V::C(0)
                        }
                    })
                    .collect();
                Self::set(st, *d, V::A(Rc::new(r)));
            }
            I::Rmw { op, ty, p, v, d } => {
                let pv = ev!(p);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load(st, a, ty)?;
                let v = ev!(v);
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(Op::Add, w, &old, &v),
                    "sub" => self.binop(Op::Sub, w, &old, &v),
                    "and" => self.binop(Op::And, w, &old, &v),
                    "or" => self.binop(Op::Or, w, &old, &v),
                    "xor" => self.binop(Op::Xor, w, &old, &v),
                    "umax" | "umin" => {
                        let c = self.cmp(if op == "umax" { Pred::Ugt } else { Pred::Ult }, w, &old, &v);
                        self.select(&c, &old, &v, ty)
                    }
                    _ => return Err(Halt::Err(format!("atomicrmw {op}"))),
                };
                self.store(st, a, ty, &new)?;
                Self::set(st, *d, old);
            }
            I::CmpXchg { ty, p, e, n, d } => {
                let pv = ev!(p);
                let a = self.conc(st, &pv, 64)?;
                let old = self.load(st, a, ty)?;
                let e = ev!(e);
                let c = self.cmp(Pred::Eq, ty.bits(), &old, &e);
                let eq = self.decide(st, &c)?;
                if eq {
                    let n = ev!(n);
                    self.store(st, a, ty, &n)?;
                }
                Self::set(st, *d, V::A(Rc::new(vec![old, V::C(eq as u128)])));
            }
            I::Copy { a, d, .. } => {
                let v = ev!(a);
                Self::set(st, *d, v);
            }
            I::Nop => {}
            I::Br(l) => return Ok(Step::Jump(*l)),
            I::CondBr(c, a, b) => {
                let c = ev!(c);
                let t = self.decide(st, &c)?;
                return Ok(Step::Jump(if t { *a } else { *b }));
            }
            I::Switch { w, v, def, cases } => {
                let x = ev!(v);
                match x {
                    V::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        return Ok(Step::Jump(t));
                    }
                    V::E(e) => {
                        // Group the cases by target, so that a fork happens
                        // per destination rather than per value.
                        let k = self.ar.eval(e, &st.model);
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1);
                        let cond = match t {
                            Some(t) if t != *def => {
                                let mut c = self.ar.cst(0, 1);
                                for (v, l) in cases {
                                    if *l == t {
                                        let kc = self.ar.cst(*v, *w);
                                        let q = self.ar.bin(Op::Eq, e, kc);
                                        c = self.ar.bin(Op::Or, c, q);
                                    }
                                }
                                c
                            }
                            _ => {
                                let mut c = self.ar.cst(0, 1);
                                for (v, l) in cases {
                                    if *l != *def {
                                        let kc = self.ar.cst(*v, *w);
                                        let q = self.ar.bin(Op::Eq, e, kc);
                                        c = self.ar.bin(Op::Or, c, q);
                                    }
                                }
                                self.ar.not1(c)
                            }
                        };
                        let cv = self.wrap(cond);
                        let ok = self.decide(st, &cv)?;
                        if !ok {
                            return Err(Halt::Err("switch".into()));
                        }
                        return Ok(Step::Jump(t.unwrap_or(*def)));
                    }
                    _ => return Err(Halt::Err("switch on aggregate".into())),
                }
            }
            I::Ret(v) => {
                let rv = match v {
                    None => None,
                    Some((_, o)) => Some(ev!(o)),
                };
                let fr = st.frames.pop().unwrap();
                st.mem.sp = fr.sp;
                if st.frames.is_empty() {
                    return Ok(Step::End);
                }
                self.finish_call(st, fr.d, fr.normal, rv)?;
                return Ok(Step::Reload);
            }
            I::Unreachable => return Err(Halt::Err("unreachable instruction reached".into())),
            I::Unsupported(e) => return Err(Halt::Err(format!("unsupported: {e}"))),
            I::Call { f, args, ret, d, normal } => {
                let fv = match f {
                    Callee::Asm => {
                        return match normal {
                            None => Ok(Step::Next),
                            Some(n) => Ok(Step::Jump(*n)),
                        }
                    }
                    Callee::Name(_) => return Err(Halt::Err("unresolved callee".into())),
                    Callee::Ptr(o) => ev!(o),
                };
                let fa = self.conc(st, &fv, 64)?;
                if fa < FBASE || fa >= FBASE + 16 * self.fns.len() as u64 || fa % 16 != 0 {
                    return Err(Halt::Err(format!("call of invalid address {fa:#x}")));
                }
                let ix = ((fa - FBASE) / 16) as u32;
                let kind = self.fns[ix as usize].kind;
                if kind == Kind::Defined {
                    let func = self.get_func(ix).map_err(Halt::Err)?;
                    self.fns[ix as usize].entered = true;
                    let mut regs = vec![V::C(0); func.nregs as usize];
                    for (i, (_, o)) in args.iter().enumerate() {
                        if let Some(p) = func.params.get(i) {
                            regs[*p as usize] = ev!(o);
                        }
                    }
                    // Position to return to.
                    st.frames.last_mut().unwrap().ip += 1;
                    let sp = st.mem.sp;
                    if st.frames.len() > 2000 {
                        return Err(Halt::Err("call depth".into()));
                    }
                    st.frames.push(Frame { f: func, regs, bb: 0, ip: 0, sp, d: *d, normal: *normal });
                    return Ok(Step::Reload);
                }
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(ev!(o));
                }
                let r = self.builtin(st, kind, ix, args, &av, ret)?;
                if let (Some(d), Some(r)) = (d, r) {
                    Self::set(st, *d, r);
                }
                return match normal {
                    None => Ok(Step::Next),
                    Some(n) => Ok(Step::Jump(*n)),
                };
            }
        }
        Ok(Step::Next)
    }

    fn finish_call(&mut self, st: &mut State, d: Option<u32>, normal: Option<u32>, rv: Option<V>) -> X<()> {
        if let (Some(d), Some(v)) = (d, rv) {
            Self::set(st, d, v);
        }
        if let Some(n) = normal {
            let (f, from) = {
                let fr = st.frames.last().unwrap();
                (fr.f.clone(), fr.bb)
            };
            self.phis(st, &f, from, n)?;
            let fr = st.frames.last_mut().unwrap();
            fr.bb = n;
            fr.ip = 0;
        }
        Ok(())
    }

    /// Load through a symbolic pointer that can only point into constant or
    /// static data: an if-then-else over the feasible addresses.
    fn table_load(&mut self, st: &mut State, e: Eid, ty: &Ty) -> X<Option<V>> {
        if ty.bits() == 0 {
            return Ok(None);
        }
        let k0 = self.ar.eval(e, &st.model) as u64;
        if !(k0 >= BASE && k0 < self.globals_end) {
            return Ok(None);
        }
        let mut addrs = vec![k0];
        let mut excl = {
            let c = self.ar.cst(k0 as u128, 64);
            let q = self.ar.bin(Op::Eq, e, c);
            self.ar.not1(q)
        };
        loop {
            match self.ask(st, excl)? {
                None => break,
                Some(m) => {
                    let k = self.ar.eval(e, &m) as u64;
                    if !(k >= BASE && k < self.globals_end) || addrs.len() >= 256 {
                        return Ok(None);
                    }
                    addrs.push(k);
                    let c = self.ar.cst(k as u128, 64);
                    let q = self.ar.bin(Op::Eq, e, c);
                    let nq = self.ar.not1(q);
                    excl = self.ar.bin(Op::And, excl, nq);
                }
            }
        }
        addrs.sort_unstable();
        let w = ty.bits();
        let v = self.load(st, addrs[0], ty)?;
        let mut r = self.eid(&v, w);
        for a in &addrs[1..] {
            let v = self.load(st, *a, ty)?;
            let x = self.eid(&v, w);
            let c = self.ar.cst(*a as u128, 64);
            let q = self.ar.bin(Op::Eq, e, c);
            r = self.ar.ite(q, x, r);
        }
        Ok(Some(self.wrap(r)))
    }

    fn cstr(&self, st: &State, p: &V, n: &V) -> String {
        match (p, n) {
            (V::C(p), V::C(n)) if *n < 4096 && st.mem.valid(*p as u64, *n as u64) => {
                let b: Vec<u8> = (0..*n as u64).map(|i| st.mem.get(*p as u64 + i).0).collect();
                String::from_utf8_lossy(&b).into_owned()
            }
            _ => "?".into(),
        }
    }

    fn map_lanes(&mut self, v: &V, ty: &Ty, f: &mut dyn FnMut(&mut Self, &V, u32) -> V) -> V {
        match (v, ty) {
            (V::A(x), Ty::Vec(_, t)) => {
                let w = t.bits();
                V::A(Rc::new(x.iter().map(|p| f(self, p, w)).collect()))
            }
            (v, t) => f(self, v, t.bits()),
        }
    }

    fn map2(&mut self, a: &V, b: &V, ty: &Ty, f: &mut dyn FnMut(&mut Self, &V, &V, u32) -> V) -> V {
        match (a, b, ty) {
            (V::A(x), V::A(y), Ty::Vec(_, t)) => {
                let w = t.bits();
                V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(self, p, q, w)).collect()))
            }
            (a, b, t) => f(self, a, b, t.bits()),
        }
    }

    fn builtin(&mut self, st: &mut State, kind: Kind, ix: u32, args: &[(Ty, Opnd)], av: &[V], ret: &Ty) -> X<Option<V>> {
        let t0 = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        Ok(match kind {
            Kind::Defined => unreachable!(),
            Kind::Nop => Some(V::C(0)),
            Kind::TlsAddr => Some(av[0].clone()),
            Kind::IsConst => Some(V::C(0)),
            Kind::Same => Some(av[0].clone()),
            Kind::Flt(i) => {
                let (aw, w) = (t0.bits(), ret.bits());
                if !matches!(aw, 32 | 64) || !(1..=64).contains(&w) {
                    return Err(Halt::Err(format!("float operation {}", FLOATS[i as usize])));
                }
                let mut x = [0; 3];
                for (x, (v, (t, _))) in x.iter_mut().zip(av.iter().zip(args)) {
                    *x = self.conc(st, v, t.bits())?;
                }
                Some(V::C(float_fn(FLOATS[i as usize], aw, w, x) as u128))
            }
            Kind::Memcpy => {
                let n = self.conc(st, &av[2], 64)?;
                let d = self.conc(st, &av[0], 64)?;
                let s = self.conc(st, &av[1], 64)?;
                if n > 0 {
                    if !st.mem.valid(d, n) || !st.mem.valid(s, n) {
                        return Err(Halt::Err(format!("memcpy of {n} bytes {s:#x} -> {d:#x}")));
                    }
                    st.mem.copy(d, s, n);
                }
                Some(V::C(d as u128))
            }
            Kind::Memset => {
                let n = self.conc(st, &av[2], 64)?;
                let d = self.conc(st, &av[0], 64)?;
                if n > 0 {
                    if !st.mem.valid(d, n) {
                        return Err(Halt::Err(format!("memset of {n} bytes at {d:#x}")));
                    }
                    match &av[1] {
                        V::C(k) => st.mem.set(d, *k as u8, n),
                        V::E(e) => {
                            let b = if self.ar.w(*e) > 8 { self.ar.extract(*e, 0, 8) } else { *e };
                            for i in 0..n {
                                st.mem.put_sym(d + i, b);
                            }
                        }
                        _ => return Err(Halt::Err("memset".into())),
                    }
                }
                Some(V::C(d as u128))
            }
            Kind::Sat(signed, sub) => {
                if signed {
                    return Err(Halt::Err("signed saturating arithmetic".into()));
                }
                Some(self.map2(&av[0], &av[1], &t0, &mut |s, a, b, w| {
                    if sub {
                        let c = s.cmp(Pred::Ult, w, a, b);
                        let d = s.binop(Op::Sub, w, a, b);
                        s.select(&c, &V::C(0), &d, &Ty::Int(w))
                    } else {
                        let d = s.binop(Op::Add, w, a, b);
                        let c = s.cmp(Pred::Ult, w, &d, a);
                        s.select(&c, &V::C(mask(w)), &d, &Ty::Int(w))
                    }
                }))
            }
            Kind::Ovf(o, signed) => {
                let w = t0.bits();
                if w == 0 {
                    return Err(Halt::Err("vector overflow op".into()));
                }
                let (a, b) = (&av[0], &av[1]);
                let op = [Op::Add, Op::Sub, Op::Mul][o as usize];
                let r = self.binop(op, w, a, b);
                let ov = match (o, signed) {
                    (0, false) => self.cmp(Pred::Ult, w, &r, a),
                    (1, false) => self.cmp(Pred::Ult, w, a, b),
                    _ => {
                        // widen
                        let w2 = w * 2;
                        if w2 > 128 {
                            if let (V::C(x), V::C(y)) = (a, b) {
                                let ov = if signed {
                                    sext(*x, w).checked_mul(sext(*y, w)).map(|p| sext(p as u128 & mask(w), w) != p).unwrap_or(true)
                                } else {
                                    x.checked_mul(*y).map(|p| p & !mask(w) != 0).unwrap_or(true)
                                };
                                V::C(ov as u128)
                            } else {
                                return Err(Halt::Err("wide overflow op".into()));
                            }
                        } else {
                            let c = if signed { Cast::SExt } else { Cast::ZExt };
                            let x = self.cast(c, w, w2, a);
                            let y = self.cast(c, w, w2, b);
                            let full = self.binop(op, w2, &x, &y);
                            let back = self.cast(c, w, w2, &r);
                            self.cmp(Pred::Ne, w2, &full, &back)
                        }
                    }
                };
                Some(V::A(Rc::new(vec![r, ov])))
            }
            Kind::MinMax(signed, max) => Some(self.map2(&av[0], &av[1], &t0, &mut |s, a, b, w| {
                let p = match (signed, max) {
                    (false, true) => Pred::Ugt,
                    (false, false) => Pred::Ult,
                    (true, true) => Pred::Sgt,
                    (true, false) => Pred::Slt,
                };
                let c = s.cmp(p, w, a, b);
                s.select(&c, a, b, &Ty::Int(w))
            })),
            Kind::Cmp3(signed) => {
                let w = t0.bits();
                let rw = ret.bits();
                let lt = self.cmp(if signed { Pred::Slt } else { Pred::Ult }, w, &av[0], &av[1]);
                let eq = self.cmp(Pred::Eq, w, &av[0], &av[1]);
                let r = self.select(&eq, &V::C(0), &V::C(1), &Ty::Int(rw));
                Some(self.select(&lt, &V::C(mask(rw)), &r, &Ty::Int(rw)))
            }
            Kind::Fsh(left) => {
                let w = t0.bits();
                let V::C(k) = av[2] else {
                    if !w.is_power_of_two() || w > 64 {
                        return Err(Halt::Err("symbolic funnel shift".into()));
                    }
                    let a = self.eid(&av[0], w);
                    let b = self.eid(&av[1], w);
                    let k = self.eid(&av[2], w);
                    let m = self.ar.cst((w - 1) as u128, w);
                    let k = self.ar.bin(Op::And, k, m);
                    let k = self.ar.zext(k, 2 * w);
                    let c = self.ar.concat(a, b);
                    let e = if left {
                        let s = self.ar.bin(Op::Shl, c, k);
                        self.ar.extract(s, w, w)
                    } else {
                        let s = self.ar.bin(Op::LShr, c, k);
                        self.ar.extract(s, 0, w)
                    };
                    return Ok(Some(self.wrap(e)));
                };
                let k = (k % w as u128) as u32;
                if k == 0 {
                    return Ok(Some(if left { av[0].clone() } else { av[1].clone() }));
                }
                let k = if left { k } else { w - k };
                // left: (a << k) | (b >> (w - k))
                let a = self.eid(&av[0], w);
                let b = self.eid(&av[1], w);
                let h = self.ar.extract(a, 0, w - k);
                let l = self.ar.extract(b, w - k, k);
                let e = self.ar.concat(h, l);
                Some(self.wrap(e))
            }
            Kind::Cttz | Kind::Ctlz => {
                let up = kind == Kind::Cttz;
                Some(self.map_lanes(&av[0], &t0, &mut |s, a, w| match a {
                    V::C(k) => {
                        let k = *k;
                        V::C(if up {
                            if k == 0 {
                                w as u128
                            } else {
                                k.trailing_zeros() as u128
                            }
                        } else if k == 0 {
                            w as u128
                        } else {
                            (k.leading_zeros() - (128 - w)) as u128
                        })
                    }
                    V::E(e) => {
                        let mut r = s.ar.cst(w as u128, w);
                        for i in 0..w {
                            // the bit closest to the relevant end is decided last
                            let bit = if up { w - 1 - i } else { i };
                            let b = s.ar.extract(*e, bit, 1);
                            let c = s.ar.cst(if up { bit } else { w - 1 - bit } as u128, w);
                            r = s.ar.ite(b, c, r);
                        }
                        s.wrap(r)
                    }
                    _ => panic!(),
                }))
            }
            Kind::Ctpop => Some(self.map_lanes(&av[0], &t0, &mut |s, a, w| match a {
                V::C(k) => V::C(k.count_ones() as u128),
                V::E(e) => {
                    let mut r = s.ar.cst(0, w);
                    for i in 0..w {
                        let b = s.ar.extract(*e, i, 1);
                        let z = s.ar.zext(b, w);
                        r = s.ar.bin(Op::Add, r, z);
                    }
                    s.wrap(r)
                }
                _ => panic!(),
            })),
            Kind::Bswap => Some(self.map_lanes(&av[0], &t0, &mut |s, a, w| {
                let e = s.eid(a, w);
                let n = w / 8;
                let mut r = s.ar.extract(e, w - 8, 8);
                for i in 1..n {
                    let b = s.ar.extract(e, w - 8 * (i + 1), 8);
                    r = s.ar.concat(b, r);
                }
                s.wrap(r)
            })),
            Kind::Bitreverse => Some(self.map_lanes(&av[0], &t0, &mut |s, a, w| {
                let e = s.eid(a, w);
                let mut r = s.ar.extract(e, w - 1, 1);
                for i in 1..w {
                    let b = s.ar.extract(e, w - 1 - i, 1);
                    r = s.ar.concat(b, r);
                }
                s.wrap(r)
            })),
            Kind::Abs => Some(self.map_lanes(&av[0], &t0, &mut |s, a, w| {
                let c = s.cmp(Pred::Slt, w, a, &V::C(0));
                let n = s.binop(Op::Sub, w, &V::C(0), a);
                s.select(&c, &n, a, &Ty::Int(w))
            })),
            Kind::ReduceOp(o) => {
                let Ty::Vec(_, t) = &t0 else { return Err(Halt::Err("reduce".into())) };
                let w = t.bits();
                let x = Self::lanes_of(&av[0])?;
                let mut r = x[0].clone();
                for p in &x[1..] {
                    r = if o > 4 {
                        let pred = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][o as usize - 5];
                        let c = self.cmp(pred, w, &r, p);
                        self.select(&c, &r, p, &Ty::Int(w))
                    } else {
                        self.binop([Op::Or, Op::And, Op::Add, Op::Xor, Op::Mul][o as usize], w, &r, p)
                    };
                }
                Some(r)
            }
            Kind::Malloc => {
                let n = self.conc(st, &av[0], 64)?;
                Some(V::C(self.alloc(st, n, 16)? as u128))
            }
            Kind::Calloc => {
                let a = self.conc(st, &av[0], 64)?;
                let b = self.conc(st, &av[1], 64)?;
                Some(V::C(self.alloc(st, a.saturating_mul(b), 16)? as u128))
            }
            Kind::Memalign => {
                let al = self.conc(st, &av[1], 64)?;
                let n = self.conc(st, &av[2], 64)?;
                let p = self.conc(st, &av[0], 64)?;
                let a = self.alloc(st, n, al)?;
                st.mem.write(p, 8, a as u128);
                Some(V::C(0))
            }
            Kind::Realloc => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                let old = if p == 0 { 0 } else { st.mem.alloc_size(p) };
                let a = self.alloc(st, n, 16)?;
                if p != 0 {
                    st.mem.copy(a, p, old.min(n));
                }
                Some(V::C(a as u128))
            }
            Kind::Memcmp => {
                let n = self.conc(st, &av[2], 64)?;
                let a = self.conc(st, &av[0], 64)?;
                let b = self.conc(st, &av[1], 64)?;
                if n > 0 && (!st.mem.valid(a, n) || !st.mem.valid(b, n)) {
                    return Err(Halt::Err("memcmp".into()));
                }
                // Common concrete prefix first.
                let mut i = 0;
                while i < n {
                    let (x, sx) = st.mem.get(a + i);
                    let (y, sy) = st.mem.get(b + i);
                    if sx != NOSYM || sy != NOSYM {
                        if sx == sy {
                            i += 1;
                            continue;
                        }
                        break;
                    }
                    if x != y {
                        let r: i32 = if x < y { -1 } else { 1 };
                        return Ok(Some(V::C(r as u32 as u128)));
                    }
                    i += 1;
                }
                if i == n {
                    return Ok(Some(V::C(0)));
                }
                let mut r = self.ar.cst(0, 32);
                let neg = self.ar.cst(u32::MAX as u128, 32);
                let pos = self.ar.cst(1, 32);
                let bcmp = &*self.fns[ix as usize].name == "bcmp";
                if bcmp {
                    let mut all = self.ar.cst(1, 1);
                    for j in i..n {
                        let x = self.byte(st, a + j);
                        let y = self.byte(st, b + j);
                        let q = self.ar.bin(Op::Eq, x, y);
                        all = self.ar.bin(Op::And, all, q);
                    }
                    let zero = self.ar.cst(0, 32);
                    let e = self.ar.ite(all, zero, pos);
                    return Ok(Some(self.wrap(e)));
                }
                for j in (i..n).rev() {
                    let x = self.byte(st, a + j);
                    let y = self.byte(st, b + j);
                    let lt = self.ar.bin(Op::Ult, x, y);
                    let eq = self.ar.bin(Op::Eq, x, y);
                    let d = self.ar.ite(lt, neg, pos);
                    r = self.ar.ite(eq, r, d);
                }
                Some(self.wrap(r))
            }
            Kind::Strlen => {
                let p = self.conc(st, &av[0], 64)?;
                let mut n = 0;
                while st.mem.valid(p + n, 1) && st.mem.get(p + n).0 != 0 {
                    n += 1;
                }
                Some(V::C(n as u128))
            }
            Kind::Panic => {
                let loc = match av.last() {
                    Some(V::C(l)) if st.mem.valid(*l as u64, 24) => {
                        let l = *l as u64;
                        let fp = st.mem.read(l, 8).unwrap_or(0);
                        let fl = st.mem.read(l + 8, 8).unwrap_or(0);
                        let line = st.mem.read(l + 16, 4).unwrap_or(0);
                        let file = self.cstr(st, &V::C(fp), &V::C(fl));
                        (file.trim_end_matches('\0').to_string(), line)
                    }
                    _ => ("?".into(), 0),
                };
                let msg = match (&av[0], &av[1]) {
                    (V::C(p), V::C(l)) if l & 1 == 1 => self.cstr(st, &V::C(*p), &V::C(l >> 1)),
                    _ => "(formatted)".into(),
                };
                let m = st.model.clone();
                self.violation(st, "panic".to_string(), format!("panic at {}:{}: {}", loc.0, loc.1, msg), &m);
                return Err(Halt::Dead);
            }
            Kind::Abort | Kind::Trap => {
                let m = st.model.clone();
                self.violation(st, "panic".to_string(), "abort".into(), &m);
                return Err(Halt::Dead);
            }
            Kind::RandKeys => Some(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]))),
            Kind::SymAny => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                let name: Rc<str> = self.cstr(st, &av[2], &av[3]).into();
                let parts: Vec<u64> = if matches!(n, 1 | 2 | 4 | 8) { vec![n] } else { vec![1; n as usize] };
                let mut a = p;
                for k in parts {
                    let w = 8 * k as u32;
                    let pos = st.inputs.len() as u32;
                    let next = self.var_ids.len() as u32;
                    let id = *self.var_ids.entry((pos, w)).or_insert(next);
                    self.solver.var_w.insert(id, w);
                    let e = self.ar.var(id, w);
                    st.inputs.push((name.clone(), id));
                    self.store(st, a, &Ty::Int(w), &V::E(e))?;
                    a += k;
                }
                None
            }
            Kind::SymAssume => {
                let c = self.cmp(Pred::Ne, t0.bits(), &av[0], &V::C(0));
                match c {
                    V::C(0) => return Err(Halt::Dead),
                    V::C(_) => {}
                    V::E(e) => {
                        if self.ar.eval(e, &st.model) == 0 {
                            match self.ask(st, e)? {
                                None => return Err(Halt::Dead),
                                Some(m) => st.model = m,
                            }
                        }
                        st.pc.push(e);
                    }
                    _ => return Err(Halt::Err("assume".into())),
                }
                None
            }
            Kind::SymCheck => {
                let name = self.cstr(st, &av[1], &av[2]);
                *self.rep.check_names.entry(name.clone()).or_insert(0) += 1;
                let c = self.cmp(Pred::Ne, t0.bits(), &av[0], &V::C(0));
                match c {
                    V::C(0) => {
                        let m = st.model.clone();
                        self.violation(st, name, "assertion is false on this path".into(), &m);
                        return Err(Halt::Dead);
                    }
                    V::C(_) => self.rep.checks_concrete += 1,
                    V::E(e) => {
                        self.rep.checks_solver += 1;
                        let ne = self.ar.not1(e);
                        if let Some(m) = self.ask(st, ne)? {
                            self.violation(st, name, "assertion can be false on this path".into(), &m);
                            if self.ar.eval(e, &st.model) == 0 {
                                match self.ask(st, e)? {
                                    None => return Err(Halt::Dead),
                                    Some(m) => st.model = m,
                                }
                            }
                            st.pc.push(e);
                        }
                    }
                    _ => return Err(Halt::Err("check".into())),
                }
                None
            }
            Kind::SymCover => {
                let name = self.cstr(st, &av[0], &av[1]);
                *self.rep.covers.entry(name).or_insert(0) += 1;
                None
            }
            Kind::SymObserve => {
                st.obs.push(av[0].clone());
                None
            }
            Kind::SymConc => {
                let k = self.conc(st, &av[0], 64)?;
                Some(V::C(k as u128))
            }
            Kind::SymCase => Some(V::C(self.lim.case as u128)),
            Kind::Unknown => {
                return Err(Halt::Err(format!("call of external function {}", self.fns[ix as usize].name)));
            }
        })
    }

    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> X<u64> {
        if n > 64 << 20 {
            return Err(Halt::Err(format!("allocation of {n} bytes")));
        }
        Ok(st.mem.alloc(n, al))
    }

    fn byte(&mut self, st: &State, a: u64) -> Eid {
        let (b, s) = st.mem.get(a);
        if s == NOSYM {
            self.ar.cst(b as u128, 8)
        } else {
            s
        }
    }

    pub fn explore(&mut self) {
        while let Some(s) = self.pending.pop() {
            if self.stop {
                return;
            }
            if self.over() {
                *self.rep.errors.entry("time limit reached".into()).or_insert(0) += 1;
                return;
            }
            self.run(s);
        }
    }

    pub fn time_left(&self) -> Duration {
        self.lim.deadline.saturating_duration_since(Instant::now())
    }
}

fn wide_v((lo, hi): (u128, u128)) -> V {
    if hi == 0 {
        V::C(lo)
    } else {
        V::A(Rc::new(vec![V::C(lo), V::C(hi)]))
    }
}

/// Arithmetic on integers of 129 to 256 bits.
fn wide(op: Op, w: u32, a: (u128, u128), b: (u128, u128)) -> Option<(u128, u128)> {
    let add = |a: (u128, u128), b: (u128, u128)| {
        let (lo, c) = a.0.overflowing_add(b.0);
        (lo, a.1.wrapping_add(b.1).wrapping_add(c as u128))
    };
    let shl = |a: (u128, u128), k: u32| match k {
        0 => a,
        1..=127 => (a.0 << k, a.1 << k | a.0 >> (128 - k)),
        128..=255 => (0, a.0 << (k - 128)),
        _ => (0, 0),
    };
    let amount = |b: (u128, u128)| if b.1 == 0 && b.0 < w as u128 { b.0 as u32 } else { 256 };
    let r = match op {
        Op::Add => add(a, b),
        Op::Sub => add(add(a, (!b.0, !b.1)), (1, 0)),
        Op::Mul => {
            let mut r = (0, 0);
            for k in 0..256 {
                let bit = if k < 128 { b.0 >> k } else { b.1 >> (k - 128) } & 1;
                if bit == 1 {
                    r = add(r, shl(a, k));
                }
            }
            r
        }
        Op::And => (a.0 & b.0, a.1 & b.1),
        Op::Or => (a.0 | b.0, a.1 | b.1),
        Op::Xor => (a.0 ^ b.0, a.1 ^ b.1),
        Op::Shl => shl(a, amount(b)),
        Op::LShr => match amount(b) {
            0 => a,
            k @ 1..=127 => (a.0 >> k | a.1 << (128 - k), a.1 >> k),
            k @ 128..=255 => (a.1 >> (k - 128), 0),
            _ => (0, 0),
        },
        _ => return None,
    };
    Some((r.0, r.1 & crate::expr::mask(w - 128)))
}
