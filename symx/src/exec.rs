//! Path-forking symbolic interpreter for LLVM IR.
use crate::parse::*;
use crate::refs::Refs;
use crate::solve::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    S(S),
    A(Rc<Vec<S>>),
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub bytes: Vec<u8>,
    /// symbolic bytes: (term, byte index), term u32::MAX when concrete
    pub sym: Vec<(u32, u8)>,
    pub nsym: u32,
    pub alive: bool,
    pub heap: bool,
}

impl Obj {
    fn new(size: u64, heap: bool) -> Obj {
        Obj {
            size,
            bytes: vec![0; size as usize],
            sym: vec![],
            nsym: 0,
            alive: true,
            heap,
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: usize,
    pub prev: u32,
    pub dst: Option<u32>,
    pub cont: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub glob: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: PathCond,
    pub steps: u64,
    pub decisions: u32,
    pub seen: Vec<u64>,
}

#[derive(Debug)]
pub enum Stop {
    /// fork on this condition and execute the instruction again
    Fork(S),
    /// the path ends
    Done,
    /// property violated: (kind, detail)
    Bad(String, String),
    /// outside what the executor supports
    Err(String),
    /// the path is infeasible or was assumed away
    Prune,
}
type R<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub model: Vec<(u32, u64)>,
    pub path_vars: Vec<(u32, String)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub max_decisions: u32,
}

pub struct Engine {
    pub m: Module,
    pub ctx: Ctx,
    pub refs: Refs,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub reached: BTreeMap<u64, u64>,
    /// models of some completed paths, with the marks they passed
    pub samples: Vec<(Vec<(u32, u64)>, Vec<u64>)>,
    pub funcs_run: BTreeSet<u32>,
    pub fix: HashMap<u32, u64>,
    pub step_limit: u64,
    intr: HashMap<u32, Intr>,
    pub viol_keys: BTreeSet<String>,
    pub max_viol: usize,
    pub trace: bool,
    pub do_confirm: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intr {
    Run,
    NoReturn,
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Assume,
    Expect,
    Bit(BitK),
    Fsh(bool),
    MinMax(Pred),
    Cmp3(bool),
    Ovf(BinOp, bool),
    Sat(BinOp, bool),
    Abs,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    MRealloc,
    PosixMemalign,
    ThreadLocal,
    ObjSize,
    Ptrmask,
    SxChar,
    SxAssume,
    SxCheck,
    SxReach,
    SxConc,
    SxHeap,
    RefCcc,
    RefLen,
    RefAt,
    RefPair,
    RefProp,
    Undefined,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum BitK {
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
}

fn classify(name: &str, defined: bool, noreturn: bool) -> Intr {
    match name {
        "symx_char" => return Intr::SxChar,
        "symx_assume" => return Intr::SxAssume,
        "symx_check" => return Intr::SxCheck,
        "symx_reach" => return Intr::SxReach,
        "symx_conc" => return Intr::SxConc,
        "symx_heap" => return Intr::SxHeap,
        "ref_ccc" => return Intr::RefCcc,
        "ref_len" => return Intr::RefLen,
        "ref_at" => return Intr::RefAt,
        "ref_pair" => return Intr::RefPair,
        "ref_prop" => return Intr::RefProp,
        "memcpy" | "memmove" => return Intr::Memcpy,
        "memset" => return Intr::Memset,
        "memcmp" => return Intr::Memcmp,
        "bcmp" => return Intr::Bcmp,
        "strlen" => return Intr::Strlen,
        "malloc" => return Intr::Malloc,
        "calloc" => return Intr::Calloc,
        "free" => return Intr::Free,
        "realloc" => return Intr::MRealloc,
        "posix_memalign" => return Intr::PosixMemalign,
        _ => {}
    }
    if name.starts_with("llvm.") {
        let n = &name[5..];
        let has = |p: &str| n.starts_with(p);
        return if has("memcpy") || has("memmove") {
            Intr::Memcpy
        } else if has("memset") {
            Intr::Memset
        } else if has("assume") {
            Intr::Assume
        } else if has("expect") || has("launder") || has("strip.invariant") || has("ssa.copy") {
            Intr::Expect
        } else if has("ctpop") {
            Intr::Bit(BitK::Ctpop)
        } else if has("ctlz") {
            Intr::Bit(BitK::Ctlz)
        } else if has("cttz") {
            Intr::Bit(BitK::Cttz)
        } else if has("bswap") {
            Intr::Bit(BitK::Bswap)
        } else if has("bitreverse") {
            Intr::Bit(BitK::Bitrev)
        } else if has("fshl") {
            Intr::Fsh(true)
        } else if has("fshr") {
            Intr::Fsh(false)
        } else if has("umax") {
            Intr::MinMax(Pred::Ugt)
        } else if has("umin") {
            Intr::MinMax(Pred::Ult)
        } else if has("smax") {
            Intr::MinMax(Pred::Sgt)
        } else if has("smin") {
            Intr::MinMax(Pred::Slt)
        } else if has("ucmp") {
            Intr::Cmp3(false)
        } else if has("scmp") {
            Intr::Cmp3(true)
        } else if has("uadd.with") {
            Intr::Ovf(BinOp::Add, false)
        } else if has("usub.with") {
            Intr::Ovf(BinOp::Sub, false)
        } else if has("umul.with") {
            Intr::Ovf(BinOp::Mul, false)
        } else if has("sadd.with") {
            Intr::Ovf(BinOp::Add, true)
        } else if has("ssub.with") {
            Intr::Ovf(BinOp::Sub, true)
        } else if has("smul.with") {
            Intr::Ovf(BinOp::Mul, true)
        } else if has("uadd.sat") {
            Intr::Sat(BinOp::Add, false)
        } else if has("usub.sat") {
            Intr::Sat(BinOp::Sub, false)
        } else if has("abs") {
            Intr::Abs
        } else if has("trap") || has("ubsantrap") {
            Intr::NoReturn
        } else if has("threadlocal") {
            Intr::ThreadLocal
        } else if has("objectsize") {
            Intr::ObjSize
        } else if has("ptrmask") {
            Intr::Ptrmask
        } else if has("lifetime")
            || has("experimental.noalias")
            || has("dbg")
            || has("prefetch")
            || has("sideeffect")
            || has("donothing")
            || has("invariant")
            || has("x86.sse2.pause")
        {
            Intr::Nop
        } else {
            Intr::Undefined
        };
    }
    if name.ends_with("_rust_alloc") {
        return Intr::Alloc;
    }
    if name.ends_with("_rust_alloc_zeroed") {
        return Intr::AllocZ;
    }
    if name.ends_with("_rust_dealloc") {
        return Intr::Dealloc;
    }
    if name.ends_with("_rust_realloc") {
        return Intr::Realloc;
    }
    if name.contains("_rust_no_alloc_shim_is_unstable") {
        return Intr::Nop;
    }
    if noreturn {
        return Intr::NoReturn;
    }
    if defined {
        Intr::Run
    } else {
        Intr::Undefined
    }
}

impl Engine {
    pub fn new(m: Module, refs: Refs) -> Engine {
        Engine {
            m,
            ctx: Ctx::new(),
            refs,
            stats: Stats::default(),
            violations: vec![],
            errors: vec![],
            reached: BTreeMap::new(),
            samples: vec![],
            funcs_run: BTreeSet::new(),
            fix: HashMap::new(),
            step_limit: 60_000_000,
            intr: HashMap::new(),
            viol_keys: BTreeSet::new(),
            max_viol: 12,
            trace: false,
            do_confirm: true,
        }
    }

    pub fn initial(&mut self, name: &str) -> State {
        let id = self.m.func_id(name).unwrap_or_else(|| panic!("no harness {}", name));
        let f = self.m.func(id);
        let regs = vec![V::S(S::K(0)); f.nregs];
        State {
            frames: vec![Frame {
                f,
                regs,
                bb: 0,
                ip: 0,
                prev: 0,
                dst: None,
                cont: None,
                allocas: vec![],
            }],
            mem: vec![],
            glob: Rc::new(HashMap::new()),
            pc: PathCond::default(),
            steps: 0,
            decisions: 0,
            seen: vec![],
        }
    }

    fn pool(&mut self) -> &mut Pool {
        &mut self.ctx.pool
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let id = st.mem.len() as u64;
        st.mem.push(Some(Rc::new(Obj::new(size, heap))));
        (DYN_BASE + id) << 32
    }
    fn is_const_obj(&mut self, id: u64) -> bool {
        if id == 0 || id >= FUNC_BASE {
            return false;
        }
        self.m.globals[id as usize - 1].constant
    }
    fn obj_size(&mut self, st: &State, id: u64) -> Option<u64> {
        if id == 0 {
            return None;
        }
        if id >= DYN_BASE {
            let i = (id - DYN_BASE) as usize;
            return st.mem.get(i).and_then(|o| o.as_ref()).filter(|o| o.alive).map(|o| o.size);
        }
        if id >= FUNC_BASE {
            return None;
        }
        if id as usize > self.m.globals.len() {
            return None;
        }
        Some(self.m.global_bytes(id as u32 - 1).len() as u64)
    }
    fn need_obj(&mut self, st: &State, a: u64, n: u64) -> R<u64> {
        let id = a >> 32;
        let off = a & 0xFFFF_FFFF;
        match self.obj_size(st, id) {
            Some(sz) if off + n <= sz => Ok(id),
            Some(sz) => Err(Stop::Bad(
                "memory".into(),
                format!("access of {} bytes at offset {} of an object of {} bytes", n, off, sz),
            )),
            None => Err(Stop::Bad("memory".into(), format!("access through a bad pointer {:#x}", a))),
        }
    }
    fn with_obj<T>(&mut self, st: &State, id: u64, f: impl FnOnce(&mut Pool, &[u8], Option<&Obj>) -> T) -> T {
        if id >= DYN_BASE {
            let o = st.mem[(id - DYN_BASE) as usize].as_ref().unwrap();
            return f(&mut self.ctx.pool, &o.bytes, Some(o));
        }
        if let Some(o) = st.glob.get(&(id as u32)) {
            let o = o.clone();
            return f(&mut self.ctx.pool, &o.bytes, Some(&o));
        }
        let b = self.m.global_bytes(id as u32 - 1);
        f(&mut self.ctx.pool, &b, None)
    }
    fn load_conc(&mut self, st: &State, a: u64, w: u32) -> R<S> {
        let n = ((w + 7) / 8) as u64;
        let id = self.need_obj(st, a, n)?;
        let off = (a & 0xFFFF_FFFF) as usize;
        let n = n as usize;
        Ok(self.with_obj(st, id, |pool, bytes, obj| {
            let s = match obj {
                Some(o) if o.nsym > 0 && o.sym[off..off + n].iter().any(|x| x.0 != u32::MAX) => {
                    // whole term?
                    let (t, b0) = o.sym[off];
                    let tw = if t == u32::MAX { 0 } else { pool.node(t).w as usize };
                    let tb = (tw + 7) / 8;
                    if t != u32::MAX && b0 == 0 && tb == n && (0..n).all(|i| o.sym[off + i] == (t, i as u8)) {
                        S::T(t)
                    } else {
                        let mut acc = S::K(0);
                        let aw = (n * 8) as u8;
                        let mut i = 0;
                        while i < n {
                            let (t, b) = o.sym[off + i];
                            if t == u32::MAX {
                                let v = S::K((o.bytes[off + i] as u64) << (8 * i));
                                acc = pool.bin(Op::Or, aw, acc, v);
                                i += 1;
                                continue;
                            }
                            // run of consecutive bytes of the same term
                            let mut k = 1;
                            while i + k < n && o.sym[off + i + k] == (t, b + k as u8) {
                                k += 1;
                            }
                            let w0 = pool.node(t).w;
                            let wb = ((w0 as usize + 7) / 8 * 8) as u8;
                            let mut x = pool.zext(w0, wb, S::T(t));
                            if b > 0 {
                                x = pool.bin(Op::Lshr, wb, x, S::K(8 * b as u64));
                            }
                            let kw = (8 * k) as u8;
                            if kw < wb {
                                x = pool.trunc(wb, kw, x);
                            }
                            let mut x = if kw < aw { pool.zext(kw, aw, x) } else { x };
                            if i > 0 {
                                x = pool.bin(Op::Shl, aw, x, S::K(8 * i as u64));
                            }
                            acc = pool.bin(Op::Or, aw, acc, x);
                            i += k;
                        }
                        acc
                    }
                }
                _ => S::K(read_bytes(bytes, off as u64, n)),
            };
            // narrow integers
            if (w as usize) < n * 8 {
                match s {
                    S::K(k) => S::K(k & mask(w as u8)),
                    S::T(t) => {
                        let tw = pool.node(t).w;
                        if tw as u32 == w {
                            s
                        } else {
                            pool.trunc(tw, w as u8, s)
                        }
                    }
                }
            } else {
                match s {
                    S::T(t) => {
                        let tw = pool.node(t).w;
                        if (tw as u32) < w {
                            pool.zext(tw, w as u8, s)
                        } else {
                            s
                        }
                    }
                    k => k,
                }
            }
        }))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> R<&'a mut Obj> {
        if id >= DYN_BASE {
            return Ok(Rc::make_mut(st.mem[(id - DYN_BASE) as usize].as_mut().unwrap()));
        }
        if self.is_const_obj(id) {
            return Err(Stop::Bad("memory".into(), "write to a constant".into()));
        }
        if !st.glob.contains_key(&(id as u32)) {
            let b = self.m.global_bytes(id as u32 - 1);
            let mut o = Obj::new(b.len() as u64, false);
            o.bytes = (*b).clone();
            Rc::make_mut(&mut st.glob).insert(id as u32, Rc::new(o));
        }
        Ok(Rc::make_mut(Rc::make_mut(&mut st.glob).get_mut(&(id as u32)).unwrap()))
    }
    fn store_conc(&mut self, st: &mut State, a: u64, w: u32, v: S) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let id = self.need_obj(st, a, n)?;
        let off = (a & 0xFFFF_FFFF) as usize;
        let n = n as usize;
        let o = self.obj_mut(st, id)?;
        match v {
            S::K(k) => {
                for i in 0..n {
                    o.bytes[off + i] = (k >> (8 * i)) as u8;
                }
                if o.nsym > 0 {
                    for i in 0..n {
                        if o.sym[off + i].0 != u32::MAX {
                            o.sym[off + i].0 = u32::MAX;
                            o.nsym -= 1;
                        }
                    }
                }
            }
            S::T(t) => {
                if o.sym.is_empty() {
                    o.sym = vec![(u32::MAX, 0); o.size as usize];
                }
                for i in 0..n {
                    if o.sym[off + i].0 == u32::MAX {
                        o.nsym += 1;
                    }
                    o.sym[off + i] = (t, i as u8);
                }
            }
        }
        Ok(())
    }
    /// a term that takes one value on this path becomes that value
    fn constval(&mut self, st: &State, s: S) -> R<u64> {
        let s = self.ctx.simp(&st.pc, s);
        if let S::K(k) = s {
            return Ok(k);
        }
        let k = self.ctx.pool.eval(s, &st.pc.model);
        let w = match s {
            S::T(t) => self.ctx.pool.node(t).w,
            _ => 64,
        };
        let e = self.pool().eq(w, s, S::K(k));
        match self.ctx.decide(&st.pc, e) {
            Dec::T => Ok(k),
            Dec::F => Err(Stop::Err("model does not satisfy the path".into())),
            Dec::Both(_) => Err(Stop::Fork(e)),
            Dec::Unknown => Err(Stop::Err("solver gave no answer".into())),
        }
    }
    fn load(&mut self, st: &State, a: S, w: u32) -> R<S> {
        let a = self.ctx.simp(&st.pc, a);
        let t = match a {
            S::K(k) => return self.load_conc(st, k, w),
            S::T(t) => t,
        };
        let n = ((w + 7) / 8) as u64;
        let (mut lo, mut hi) = self.pool().range(a);
        if lo >> 32 != hi >> 32 || {
            let sz = self.obj_size(st, lo >> 32);
            sz.is_none() || (hi & 0xFFFF_FFFF) + n > sz.unwrap()
        } {
            let b = self.ctx.bounds(&st.pc, a);
            lo = b.0;
            hi = b.1;
        }
        if lo == hi {
            return self.load_conc(st, lo, w);
        }
        if lo >> 32 == hi >> 32 && self.is_const_obj(lo >> 32) && w % 8 == 0 {
            let id = lo >> 32;
            let sz = self.obj_size(st, id).unwrap();
            if (hi & 0xFFFF_FFFF) + n > sz {
                let lim = (id << 32) + sz - n;
                let c = self.pool().bin_cmp(Op::Ule, 64, a, S::K(lim));
                match self.ctx.decide(&st.pc, c) {
                    Dec::T => {}
                    Dec::F => {
                        return Err(Stop::Bad("memory".into(), "out-of-bounds table read".into()));
                    }
                    Dec::Both(_) => return Err(Stop::Fork(c)),
                    Dec::Unknown => return Err(Stop::Err("solver gave no answer".into())),
                }
            }
            let oid = id as u32;
            if !self.ctx.pool.consts.contains_key(&oid) {
                let b = self.m.global_bytes(oid - 1);
                self.ctx.pool.consts.insert(oid, b);
            }
            let off = self.pool().bin(Op::Sub, 64, a, S::K(id << 32));
            return Ok(self.pool().sel(oid, w as u8, off));
        }
        // choose between objects first
        let nd = *self.ctx.pool.node(t);
        if nd.op == Op::Ite {
            return Err(Stop::Fork(nd.a));
        }
        let k = self.constval(st, a)?;
        self.load_conc(st, k, w)
    }
    fn addr(&mut self, st: &State, a: S) -> R<u64> {
        self.constval(st, a)
    }

    fn copy_bytes(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let sid = self.need_obj(st, s, n)?;
        let did = self.need_obj(st, d, n)?;
        let so = (s & 0xFFFF_FFFF) as usize;
        let dof = (d & 0xFFFF_FFFF) as usize;
        let n = n as usize;
        let (bytes, sym): (Vec<u8>, Vec<(u32, u8)>) = self.with_obj(st, sid, |_, b, o| {
            (
                b[so..so + n].to_vec(),
                match o {
                    Some(o) if o.nsym > 0 => o.sym[so..so + n].to_vec(),
                    _ => vec![],
                },
            )
        });
        let o = self.obj_mut(st, did)?;
        o.bytes[dof..dof + n].copy_from_slice(&bytes);
        if sym.is_empty() && o.nsym == 0 {
            return Ok(());
        }
        if o.sym.is_empty() {
            o.sym = vec![(u32::MAX, 0); o.size as usize];
        }
        for i in 0..n {
            let x = if sym.is_empty() { (u32::MAX, 0) } else { sym[i] };
            let was = o.sym[dof + i].0 != u32::MAX;
            let is = x.0 != u32::MAX;
            o.sym[dof + i] = x;
            match (was, is) {
                (true, false) => o.nsym -= 1,
                (false, true) => o.nsym += 1,
                _ => {}
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ operands
    fn val(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::K(k) => V::S(S::K(*k)),
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|k| S::K(*k)).collect())),
            Opd::None => V::S(S::K(0)),
        }
    }
    fn sv(&self, fr: &Frame, o: &Opd) -> S {
        match o {
            Opd::Reg(r) => match &fr.regs[*r as usize] {
                V::S(s) => *s,
                V::A(v) => v[0],
            },
            Opd::K(k) => S::K(*k),
            _ => S::K(0),
        }
    }

    fn icmp(&mut self, p: Pred, w: u8, a: S, b: S) -> S {
        let pool = &mut self.ctx.pool;
        match p {
            Pred::Eq => pool.eq(w, a, b),
            Pred::Ne => {
                let e = pool.eq(w, a, b);
                pool.not(e)
            }
            Pred::Ugt => pool.bin_cmp(Op::Ult, w, b, a),
            Pred::Uge => pool.bin_cmp(Op::Ule, w, b, a),
            Pred::Ult => pool.bin_cmp(Op::Ult, w, a, b),
            Pred::Ule => pool.bin_cmp(Op::Ule, w, a, b),
            Pred::Sgt => pool.bin_cmp(Op::Slt, w, b, a),
            Pred::Sge => pool.bin_cmp(Op::Sle, w, b, a),
            Pred::Slt => pool.bin_cmp(Op::Slt, w, a, b),
            Pred::Sle => pool.bin_cmp(Op::Sle, w, a, b),
        }
    }
    fn binop(&mut self, st: &State, op: BinOp, w: u8, a: S, b: S) -> R<S> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::Lshr,
            BinOp::AShr => Op::Ashr,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
        };
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.pool().eq(w, b, S::K(0));
            match self.ctx.decide(&st.pc, z) {
                Dec::F => {}
                Dec::T => return Err(Stop::Bad("arith".into(), "division by zero".into())),
                Dec::Both(_) => return Err(Stop::Fork(z)),
                Dec::Unknown => return Err(Stop::Err("solver gave no answer".into())),
            }
        }
        // 1-bit arithmetic
        if w == 1 {
            let p = self.pool();
            return Ok(match op {
                BinOp::Add | BinOp::Sub | BinOp::Xor => match (a, b) {
                    (S::K(x), S::K(y)) => S::K(x ^ y),
                    (_, S::K(0)) => a,
                    (S::K(0), _) => b,
                    (_, S::K(_)) => p.not(a),
                    (S::K(_), _) => p.not(b),
                    _ => {
                        let e = p.eq(1, a, b);
                        p.not(e)
                    }
                },
                BinOp::Mul | BinOp::And => p.bin(Op::And, 1, a, b),
                BinOp::Or => p.bin(Op::Or, 1, a, b),
                _ => p.bin(o, 1, a, b),
            });
        }
        Ok(self.pool().bin(o, w, a, b))
    }

    // ------------------------------------------------------------ execution
    pub fn run_path(&mut self, mut st: State, work: &mut VecDeque<State>) -> Option<State> {
        // returns Some(state) when it forked (first branch), None when the path ended
        loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Fork(c)) => {
                    st.decisions += 1;
                    self.stats.forks += 1;
                    match self.ctx.decide(&st.pc, c) {
                        Dec::T | Dec::F => {
                            self.errors.push("spurious fork".into());
                            return None;
                        }
                        Dec::Unknown => {
                            self.errors.push("solver gave no answer".into());
                            return None;
                        }
                        Dec::Both(asg) => {
                            let c1 = self.ctx.simp(&st.pc, c);
                            let cur = self.ctx.pool.eval(c1, &st.pc.model) != 0;
                            let mut other = st.clone();
                            if let Some(a) = asg {
                                self.ctx.set_model(&mut other.pc, &a);
                            }
                            if self.trace {
                                eprintln!("fork {} in {}", self.ctx.pool.show(c1), st.frames.last().unwrap().f.name);
                            }
                            self.ctx.assume(&mut st.pc, c1, cur);
                            self.ctx.assume(&mut other.pc, c1, !cur);
                            work.push_back(other);
                            return Some(st);
                        }
                    }
                }
                Err(Stop::Done) => {
                    self.stats.paths += 1;
                    if self.stats.paths.is_power_of_two() && self.samples.len() < 16 {
                        let m = self.model_of(&st);
                        self.samples.push((m, st.seen.clone()));
                    }
                    self.stats.max_decisions = self.stats.max_decisions.max(st.decisions);
                    return None;
                }
                Err(Stop::Prune) => {
                    self.stats.pruned += 1;
                    return None;
                }
                Err(Stop::Bad(k, d)) => {
                    self.stats.paths += 1;
                    self.violation(&st, k, d);
                    return None;
                }
                Err(Stop::Err(e)) => {
                    let loc = st
                        .frames
                        .iter()
                        .rev()
                        .take(4)
                        .map(|f| f.f.name.clone())
                        .collect::<Vec<_>>()
                        .join(" < ");
                    if self.errors.len() < 20 {
                        self.errors.push(format!("{} in {}", e, loc));
                    }
                    return None;
                }
            }
        }
    }

    /// before a worker starts: what the parent counted is not counted again
    pub fn reset_counters(&mut self) {
        self.stats = Stats::default();
        self.ctx.stats = Default::default();
        self.violations.clear();
        self.errors.clear();
        self.reached.clear();
        self.samples.clear();
        self.ctx.doms.tab_evals = 0;
        self.ctx.pool.inversions = 0;
        let z = &mut self.ctx.z3;
        (z.queries, z.sat, z.unsat, z.nanos, z.max_nanos) = (0, 0, 0, 0, 0);
    }
    fn model_of(&self, st: &State) -> Vec<(u32, u64)> {
        (0..64u32)
            .filter(|v| st.pc.declared >> v & 1 == 1)
            .map(|v| (v, st.pc.model[v as usize]))
            .collect()
    }
    pub fn violation(&mut self, st: &State, kind: String, detail: String) {
        let key = format!("{}:{}", kind, detail);
        if self.viol_keys.contains(&key) && self.violations.len() >= 3 {
            return;
        }
        if self.violations.len() >= self.max_viol {
            return;
        }
        self.viol_keys.insert(key);
        let model = self.model_of(st);
        let pv = model
            .iter()
            .map(|(v, _)| {
                let r = self.ctx.doms.get(st.pc.dom[*v as usize]);
                let s: Vec<String> = r.iter().take(6).map(|(a, b)| format!("{:X}-{:X}", a, b)).collect();
                (*v, s.join(","))
            })
            .collect();
        self.violations.push(Violation {
            kind,
            detail,
            model,
            path_vars: pv,
        });
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.stats.instrs += 1;
        if st.steps > self.step_limit {
            return Err(Stop::Err("step limit".into()));
        }
        let (f, bb, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.bb as usize, fr.ip)
        };
        let ins = &f.blocks[bb].ins[ip];
        macro_rules! fr {
            () => {
                st.frames.last_mut().unwrap()
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = st.frames.last_mut().unwrap();
                fr.regs[$d as usize] = v;
                fr.ip += 1;
            }};
        }
        match ins {
            I::Nop => fr!().ip += 1,
            I::Bin(op, w, d, a, b) => {
                let (x, y) = {
                    let fr = fr!();
                    (self.sv(fr, a), self.sv(fr, b))
                };
                let r = self.binop(st, *op, *w as u8, x, y)?;
                set!(*d, V::S(r));
            }
            I::ICmp(p, w, d, a, b) => {
                let (x, y) = {
                    let fr = fr!();
                    (self.sv(fr, a), self.sv(fr, b))
                };
                let r = self.icmp(*p, *w as u8, x, y);
                set!(*d, V::S(r));
            }
            I::Cast(op, w, w2, d, a) => {
                let x = self.sv(fr!(), a);
                let p = self.pool();
                let r = match op {
                    CastOp::ZExt => p.zext(*w as u8, *w2 as u8, x),
                    CastOp::SExt => p.sext(*w as u8, *w2 as u8, x),
                    CastOp::Trunc => {
                        if *w2 == 1 {
                            let m = p.bin(Op::And, *w as u8, x, S::K(1));
                            p.eq(*w as u8, m, S::K(1))
                        } else {
                            p.trunc(*w as u8, *w2 as u8, x)
                        }
                    }
                    CastOp::Same => x,
                };
                set!(*d, V::S(r));
            }
            I::Load(d, ty, p) => {
                let a = self.sv(fr!(), p);
                let v = self.load_ty(st, ty, a)?;
                set!(*d, v);
            }
            I::Store(ty, v, p) => {
                let (x, a) = {
                    let fr = fr!();
                    (self.val(fr, v), self.sv(fr, p))
                };
                let a = self.addr(st, a)?;
                self.store_ty(st, ty, a, &x)?;
                fr!().ip += 1;
            }
            I::Gep(d, base, off, idx) => {
                let fr = st.frames.last().unwrap();
                let mut acc = self.sv(fr, base);
                let parts: Vec<(S, u32, u64)> = idx.iter().map(|(o, w, s)| (self.sv(fr, o), *w, *s)).collect();
                let p = self.pool();
                acc = p.bin(Op::Add, 64, acc, S::K(*off));
                for (o, w, s) in parts {
                    let o = p.sext(w as u8, 64, o);
                    let o = p.bin(Op::Mul, 64, o, S::K(s));
                    acc = p.bin(Op::Add, 64, acc, o);
                }
                set!(*d, V::S(acc));
            }
            I::Alloca(d, size) => {
                let a = self.alloc(st, *size, false);
                let id = ((a >> 32) - DYN_BASE) as u32;
                fr!().allocas.push(id);
                set!(*d, V::S(S::K(a)));
            }
            I::Select(d, ty, c, a, b) => {
                let (cv, x, y) = {
                    let fr = fr!();
                    (self.sv(fr, c), self.val(fr, a), self.val(fr, b))
                };
                let cv = self.ctx.fold(&st.pc, cv);
                let r = match cv {
                    S::K(k) => {
                        if k != 0 {
                            x
                        } else {
                            y
                        }
                    }
                    _ => match (x, y) {
                        (V::S(x), V::S(y)) => {
                            // pointers to different objects: take a decision instead
                            if *ty == Ty::Ptr && x != y {
                                match self.ctx.decide(&st.pc, cv) {
                                    Dec::T => V::S(x),
                                    Dec::F => V::S(y),
                                    Dec::Both(_) => return Err(Stop::Fork(cv)),
                                    Dec::Unknown => return Err(Stop::Err("solver gave no answer".into())),
                                }
                            } else {
                                V::S(self.pool().ite(ty.bits() as u8, cv, x, y))
                            }
                        }
                        (V::A(x), V::A(y)) => {
                            let lv = ty.leaves();
                            let mut out = vec![];
                            for i in 0..x.len() {
                                out.push(self.pool().ite(lv[i].0.bits() as u8, cv, x[i], y[i]));
                            }
                            V::A(Rc::new(out))
                        }
                        _ => return Err(Stop::Err("select of mixed values".into())),
                    },
                };
                set!(*d, r);
            }
            I::Extract(d, o, start, n, agg) => {
                let v = self.val(fr!(), o);
                let r = match v {
                    V::A(x) => {
                        if *agg {
                            V::A(Rc::new(x[*start..*start + *n].to_vec()))
                        } else {
                            V::S(x[*start])
                        }
                    }
                    V::S(s) => V::S(s),
                };
                set!(*d, r);
            }
            I::Insert(d, o, total, start, n, v) => {
                let (base, v) = {
                    let fr = fr!();
                    (self.val(fr, o), self.val(fr, v))
                };
                let mut x = match base {
                    V::A(x) => (*x).clone(),
                    V::S(s) => vec![s; *total],
                };
                match v {
                    V::S(s) => x[*start] = s,
                    V::A(a) => {
                        for i in 0..*n {
                            x[*start + i] = a[i];
                        }
                    }
                }
                set!(*d, V::A(Rc::new(x)));
            }
            I::Freeze(d, o) => {
                let v = self.val(fr!(), o);
                set!(*d, v);
            }
            I::AtomicRmw(d, k, ty, p, v) => {
                let (a, x) = {
                    let fr = fr!();
                    (self.sv(fr, p), self.sv(fr, v))
                };
                let a = self.addr(st, a)?;
                let w = ty.bits();
                let old = self.load_conc(st, a, w)?;
                let nw = match k.as_str() {
                    "add" => self.pool().bin(Op::Add, w as u8, old, x),
                    "sub" => self.pool().bin(Op::Sub, w as u8, old, x),
                    "or" => self.pool().bin(Op::Or, w as u8, old, x),
                    "and" => self.pool().bin(Op::And, w as u8, old, x),
                    "xchg" => x,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", k))),
                };
                self.store_conc(st, a, w, nw)?;
                set!(*d, V::S(old));
            }
            I::CmpXchg(d, ty, p, c, n) => {
                let (a, c, n) = {
                    let fr = fr!();
                    (self.sv(fr, p), self.sv(fr, c), self.sv(fr, n))
                };
                let a = self.addr(st, a)?;
                let w = ty.bits();
                let old = self.load_conc(st, a, w)?;
                let e = self.pool().eq(w as u8, old, c);
                let ok = match self.ctx.decide(&st.pc, e) {
                    Dec::T => true,
                    Dec::F => false,
                    Dec::Both(_) => return Err(Stop::Fork(e)),
                    Dec::Unknown => return Err(Stop::Err("solver gave no answer".into())),
                };
                if ok {
                    self.store_conc(st, a, w, n)?;
                }
                set!(*d, V::A(Rc::new(vec![old, S::K(ok as u64)])));
            }
            I::Br(l) => self.jump(st, *l),
            I::CondBr(c, a, b) => {
                let cv = self.sv(fr!(), c);
                let t = self.truth(st, cv)?;
                self.jump(st, if t { *a } else { *b });
            }
            I::Switch(w, o, d, cases) => {
                let v = self.sv(fr!(), o);
                let v = self.ctx.simp(&st.pc, v);
                if let S::K(k) = v {
                    let l = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(st, l);
                    return Ok(());
                }
                // group the cases by target
                let mut groups: Vec<(u32, Vec<u64>)> = vec![];
                for (k, l) in cases {
                    match groups.iter_mut().find(|g| g.0 == *l) {
                        Some(g) => g.1.push(*k),
                        None => groups.push((*l, vec![*k])),
                    }
                }
                for (l, ks) in groups {
                    if l == *d {
                        continue;
                    }
                    let c = if ks.len() == 1 {
                        self.pool().eq(*w as u8, v, S::K(ks[0]))
                    } else {
                        let s = self.pool().set(ks);
                        self.pool().mem(s, *w as u8, v)
                    };
                    if self.truth(st, c)? {
                        self.jump(st, l);
                        return Ok(());
                    }
                }
                self.jump(st, *d);
            }
            I::Ret(o) => {
                let v = match o {
                    Opd::None => None,
                    o => Some(self.val(fr!(), o)),
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem[a as usize] = None;
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                let top = st.frames.last_mut().unwrap();
                if let (Some(d), Some(v)) = (fr.dst, v) {
                    top.regs[d as usize] = v;
                }
                if let Some(l) = fr.cont {
                    self.jump(st, l);
                } else {
                    top.ip += 1;
                }
            }
            I::Unreachable => {
                return Err(Stop::Bad(
                    "unreachable".into(),
                    format!("unreachable code reached in {}", f.name),
                ))
            }
            I::Unsupported(t) => return Err(Stop::Err(format!("unsupported instruction: {}", t))),
            I::Call(dst, rty, callee, args, cont) => {
                let fid = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(o) => {
                        let p = self.sv(fr!(), o);
                        let p = self.constval(st, p)?;
                        let id = p >> 32;
                        if id < FUNC_BASE || id >= DYN_BASE || p & 0xFFFF_FFFF != 0 {
                            return Err(Stop::Bad("memory".into(), format!("call of a bad function pointer {:#x}", p)));
                        }
                        (id - FUNC_BASE) as u32
                    }
                    Callee::Bad => return Err(Stop::Err("inline assembly or unknown callee".into())),
                };
                let av: Vec<V> = {
                    let fr = st.frames.last().unwrap();
                    args.iter().map(|(_, o)| self.val(fr, o)).collect()
                };
                let intr = match self.intr.get(&fid) {
                    Some(i) => *i,
                    None => {
                        let d = &self.m.funcs[fid as usize];
                        let i = classify(&d.name, d.defined, d.noreturn);
                        self.intr.insert(fid, i);
                        i
                    }
                };
                match intr {
                    Intr::Run => {
                        if st.frames.len() > 200 {
                            return Err(Stop::Err("call depth".into()));
                        }
                        self.funcs_run.insert(fid);
                        let f = self.m.func(fid);
                        let mut regs = vec![V::S(S::K(0)); f.nregs];
                        for (i, (r, _)) in f.params.iter().enumerate() {
                            if i < av.len() {
                                let v = match &av[i] {
                                    V::S(s) => V::S(self.ctx.simp(&st.pc, *s)),
                                    v => v.clone(),
                                };
                                regs[*r as usize] = v;
                            }
                        }
                        st.frames.push(Frame {
                            f,
                            regs,
                            bb: 0,
                            ip: 0,
                            prev: 0,
                            dst: *dst,
                            cont: *cont,
                            allocas: vec![],
                        });
                    }
                    Intr::NoReturn => {
                        let d = self.m.funcs[fid as usize].name.clone();
                        let cal = f.name.clone();
                        return Err(Stop::Bad("panic".into(), format!("{} called from {}", short(&d), short(&cal))));
                    }
                    i => {
                        let name = self.m.funcs[fid as usize].name.clone();
                        let sargs: Vec<S> = av
                            .iter()
                            .map(|v| match v {
                                V::S(s) => *s,
                                V::A(a) => a[0],
                            })
                            .collect();
                        let widths: Vec<u32> = args
                            .iter()
                            .map(|(t, _)| match t {
                                Ty::Int(_) | Ty::Ptr => t.bits(),
                                _ => 64,
                            })
                            .collect();
                        let r = self.intrinsic(st, i, &name, &sargs, &widths, rty)?;
                        if let (Some(d), Some(v)) = (dst, r) {
                            st.frames.last_mut().unwrap().regs[*d as usize] = v;
                        }
                        if let Some(l) = cont {
                            self.jump(st, *l);
                        } else {
                            st.frames.last_mut().unwrap().ip += 1;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn truth(&mut self, st: &State, c: S) -> R<bool> {
        if let S::K(k) = c {
            return Ok(k != 0);
        }
        match self.ctx.decide(&st.pc, c) {
            Dec::T => Ok(true),
            Dec::F => Ok(false),
            Dec::Both(_) => Err(Stop::Fork(c)),
            Dec::Unknown => Err(Stop::Err("solver gave no answer".into())),
        }
    }

    fn jump(&mut self, st: &mut State, l: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.bb;
        let b = &f.blocks[l as usize];
        if !b.phis.is_empty() {
            let vals: Vec<V> = b
                .phis
                .iter()
                .map(|(_, v)| {
                    let o = &v.iter().find(|x| x.0 == from).expect("phi").1;
                    match o {
                        Opd::Reg(r) => fr.regs[*r as usize].clone(),
                        Opd::K(k) => V::S(S::K(*k)),
                        Opd::Agg(v) => V::A(Rc::new(v.iter().map(|k| S::K(*k)).collect())),
                        Opd::None => V::S(S::K(0)),
                    }
                })
                .collect();
            for ((d, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.prev = from;
        fr.bb = l;
        fr.ip = 0;
    }

    fn load_ty(&mut self, st: &State, ty: &Ty, a: S) -> R<V> {
        match ty {
            Ty::Int(w) if *w > 64 => {
                if *w % 8 != 0 {
                    return Err(Stop::Err("wide load".into()));
                }
                let a = self.constval(st, a)?;
                let mut out = vec![];
                let mut o = 0;
                while o < *w {
                    let k = (*w - o).min(64);
                    out.push(self.load_conc(st, a + (o / 8) as u64, k)?);
                    o += k;
                }
                Ok(V::A(Rc::new(out)))
            }
            t if t.is_agg() => {
                let mut out = vec![];
                for (t, off) in ty.leaves() {
                    let p = self.pool().bin(Op::Add, 64, a, S::K(off));
                    out.push(self.load(st, p, t.bits())?);
                }
                Ok(V::A(Rc::new(out)))
            }
            t => Ok(V::S(self.load(st, a, t.bits())?)),
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: &Ty, a: u64, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) if *w > 64 => {
                let V::A(x) = v else {
                    return Err(Stop::Err("wide store".into()));
                };
                let mut o = 0;
                let mut i = 0;
                while o < *w {
                    let k = (*w - o).min(64);
                    self.store_conc(st, a + (o / 8) as u64, k, x[i])?;
                    o += k;
                    i += 1;
                }
                Ok(())
            }
            t if t.is_agg() => {
                let V::A(x) = v else {
                    return Err(Stop::Err("aggregate store".into()));
                };
                for (i, (t, off)) in ty.leaves().into_iter().enumerate() {
                    self.store_conc(st, a + off, t.bits(), x[i])?;
                }
                Ok(())
            }
            t => {
                let V::S(s) = v else {
                    return Err(Stop::Err("scalar store of an aggregate".into()));
                };
                self.store_conc(st, a, t.bits(), *s)
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, name: &str, a: &[S], ws: &[u32], rty: &Ty) -> R<Option<V>> {
        let one = |s: S| Ok(Some(V::S(s)));
        match i {
            Intr::Nop => Ok(Some(V::S(S::K(0)))),
            Intr::Expect => one(a[0]),
            Intr::ThreadLocal => one(a[0]),
            Intr::Assume => Ok(None),
            Intr::Memcpy => {
                let n = self.constval(st, a[2])?;
                if n > 0 {
                    let d = self.addr(st, a[0])?;
                    // a source in constant memory may be symbolic: copy element-wise through loads
                    let s0 = self.ctx.simp(&st.pc, a[1]);
                    if let S::K(s) = s0 {
                        self.copy_bytes(st, d, s, n)?;
                    } else {
                        let mut vals = vec![];
                        let mut o = 0;
                        while o < n {
                            let k = if n - o >= 8 {
                                8
                            } else if n - o >= 4 {
                                4
                            } else {
                                1
                            };
                            let p = self.pool().bin(Op::Add, 64, s0, S::K(o));
                            vals.push((o, k, self.load(st, p, k as u32 * 8)?));
                            o += k;
                        }
                        for (o, k, v) in vals {
                            self.store_conc(st, d + o, k as u32 * 8, v)?;
                        }
                    }
                }
                one(a[0])
            }
            Intr::Memset => {
                let n = self.constval(st, a[2])?;
                if n > 0 {
                    let d = self.addr(st, a[0])?;
                    let b = self.constval(st, a[1])? & 0xFF;
                    let id = self.need_obj(st, d, n)?;
                    let off = (d & 0xFFFF_FFFF) as usize;
                    let o = self.obj_mut(st, id)?;
                    for i in off..off + n as usize {
                        o.bytes[i] = b as u8;
                        if o.nsym > 0 && o.sym[i].0 != u32::MAX {
                            o.sym[i].0 = u32::MAX;
                            o.nsym -= 1;
                        }
                    }
                }
                one(a[0])
            }
            Intr::Bcmp | Intr::Memcmp => {
                let n = self.constval(st, a[2])?;
                if n > 4096 {
                    return Err(Stop::Err("memcmp length".into()));
                }
                if i == Intr::Bcmp {
                    let mut all = S::K(1);
                    let mut o = 0;
                    while o < n {
                        let k = if n - o >= 4 { 4 } else { 1 };
                        let p = self.pool().bin(Op::Add, 64, a[0], S::K(o));
                        let q = self.pool().bin(Op::Add, 64, a[1], S::K(o));
                        let x = self.load(st, p, k as u32 * 8)?;
                        let y = self.load(st, q, k as u32 * 8)?;
                        let e = self.pool().eq((k * 8) as u8, x, y);
                        all = self.pool().and1(all, e);
                        o += k;
                    }
                    let ne = self.pool().not(all);
                    one(self.pool().zext(1, 32, ne))
                } else {
                    for o in 0..n {
                        let p = self.pool().bin(Op::Add, 64, a[0], S::K(o));
                        let q = self.pool().bin(Op::Add, 64, a[1], S::K(o));
                        let x = self.load(st, p, 8)?;
                        let y = self.load(st, q, 8)?;
                        let e = self.pool().eq(8, x, y);
                        if !self.truth(st, e)? {
                            let l = self.pool().bin_cmp(Op::Ult, 8, x, y);
                            return one(self.pool().ite(32, l, S::K(0xFFFF_FFFF), S::K(1)));
                        }
                    }
                    one(S::K(0))
                }
            }
            Intr::Strlen => {
                let mut p = self.addr(st, a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_conc(st, p, 8)?;
                    if self.constval(st, b)? == 0 {
                        return one(S::K(n));
                    }
                    n += 1;
                    p += 1;
                }
            }
            Intr::Bit(k) => {
                let w = ws[0];
                let x = self.ctx.simp(&st.pc, a[0]);
                if let S::K(v) = x {
                    let r = match k {
                        BitK::Ctpop => v.count_ones() as u64,
                        BitK::Ctlz => (v.leading_zeros() - (64 - w)) as u64,
                        BitK::Cttz => {
                            if v == 0 {
                                w as u64
                            } else {
                                v.trailing_zeros() as u64
                            }
                        }
                        BitK::Bswap => v.swap_bytes() >> (64 - w),
                        BitK::Bitrev => v.reverse_bits() >> (64 - w),
                    };
                    return one(S::K(r));
                }
                // bit by bit
                let p = self.pool();
                let w8 = w as u8;
                let mut acc;
                match k {
                    BitK::Ctpop => {
                        acc = S::K(0);
                        for j in 0..w as u64 {
                            let s = p.bin(Op::Lshr, w8, x, S::K(j));
                            let b = p.bin(Op::And, w8, s, S::K(1));
                            acc = p.bin(Op::Add, w8, acc, b);
                        }
                    }
                    BitK::Ctlz => {
                        acc = S::K(w as u64);
                        for j in 0..w as u64 {
                            // highest set bit wins: iterate upwards
                            let s = p.bin(Op::Lshr, w8, x, S::K(j));
                            let b = p.bin(Op::And, w8, s, S::K(1));
                            let c = p.eq(w8, b, S::K(1));
                            acc = p.ite(w8, c, S::K(w as u64 - 1 - j), acc);
                        }
                    }
                    BitK::Cttz => {
                        acc = S::K(w as u64);
                        for j in (0..w as u64).rev() {
                            let s = p.bin(Op::Lshr, w8, x, S::K(j));
                            let b = p.bin(Op::And, w8, s, S::K(1));
                            let c = p.eq(w8, b, S::K(1));
                            acc = p.ite(w8, c, S::K(j), acc);
                        }
                    }
                    BitK::Bswap => {
                        acc = S::K(0);
                        let n = w as u64 / 8;
                        for j in 0..n {
                            let s = p.bin(Op::Lshr, w8, x, S::K(8 * j));
                            let b = p.bin(Op::And, w8, s, S::K(0xFF));
                            let sh = p.bin(Op::Shl, w8, b, S::K(8 * (n - 1 - j)));
                            acc = p.bin(Op::Or, w8, acc, sh);
                        }
                    }
                    BitK::Bitrev => {
                        acc = S::K(0);
                        for j in 0..w as u64 {
                            let s = p.bin(Op::Lshr, w8, x, S::K(j));
                            let b = p.bin(Op::And, w8, s, S::K(1));
                            let sh = p.bin(Op::Shl, w8, b, S::K(w as u64 - 1 - j));
                            acc = p.bin(Op::Or, w8, acc, sh);
                        }
                    }
                }
                one(acc)
            }
            Intr::Fsh(left) => {
                let w = ws[0] as u64;
                let k = self.constval(st, a[2])? % w;
                if k == 0 {
                    return one(if left { a[0] } else { a[1] });
                }
                let p = self.pool();
                let (l, r) = if left { (k, w - k) } else { (w - k, k) };
                let x = p.bin(Op::Shl, w as u8, a[0], S::K(l));
                let y = p.bin(Op::Lshr, w as u8, a[1], S::K(r));
                one(p.bin(Op::Or, w as u8, x, y))
            }
            Intr::MinMax(pr) => {
                let c = self.icmp(pr, ws[0] as u8, a[0], a[1]);
                one(self.pool().ite(ws[0] as u8, c, a[0], a[1]))
            }
            Intr::Cmp3(signed) => {
                let w = ws[0] as u8;
                let rw = rty.bits() as u8;
                let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, w, a[0], a[1]);
                let eq = self.pool().eq(w, a[0], a[1]);
                let x = self.pool().ite(rw, eq, S::K(0), S::K(1));
                one(self.pool().ite(rw, lt, S::K(mask(rw)), x))
            }
            Intr::Ovf(op, signed) => {
                let w = ws[0] as u8;
                let r = self.binop(st, op, w, a[0], a[1])?;
                let o = if !signed {
                    match op {
                        BinOp::Add => self.pool().bin_cmp(Op::Ult, w, r, a[0]),
                        BinOp::Sub => self.pool().bin_cmp(Op::Ult, w, a[0], a[1]),
                        _ => {
                            let (_, h1) = self.pool().range(a[0]);
                            let (_, h2) = self.pool().range(a[1]);
                            if (h1 as u128) * (h2 as u128) <= mask(w) as u128 {
                                S::K(0)
                            } else if let (S::K(x), S::K(y)) = (a[0], a[1]) {
                                S::K(((x as u128) * (y as u128) > mask(w) as u128) as u64)
                            } else if let (x, S::K(y)) | (S::K(y), x) = (a[0], a[1]) {
                                self.pool().bin_cmp(Op::Ult, w, S::K(mask(w) / y), x)
                            } else {
                                return Err(Stop::Err("symbolic multiplication overflow".into()));
                            }
                        }
                    }
                } else {
                    if w == 64 {
                        match (a[0], a[1]) {
                            (S::K(x), S::K(y)) => {
                                let (x, y) = (x as i64, y as i64);
                                S::K(match op {
                                    BinOp::Add => x.overflowing_add(y).1,
                                    BinOp::Sub => x.overflowing_sub(y).1,
                                    _ => x.overflowing_mul(y).1,
                                } as u64)
                            }
                            _ => return Err(Stop::Err("symbolic signed overflow".into())),
                        }
                    } else {
                        let ww = (w * 2).min(64);
                        let x = self.pool().sext(w, ww, a[0]);
                        let y = self.pool().sext(w, ww, a[1]);
                        let wide = self.binop(st, op, ww, x, y)?;
                        let back = self.pool().sext(w, ww, r);
                        let e = self.pool().eq(ww, wide, back);
                        self.pool().not(e)
                    }
                };
                Ok(Some(V::A(Rc::new(vec![r, o]))))
            }
            Intr::Sat(op, _) => {
                let w = ws[0] as u8;
                let r = self.binop(st, op, w, a[0], a[1])?;
                let p = self.pool();
                if op == BinOp::Sub {
                    let c = p.bin_cmp(Op::Ult, w, a[0], a[1]);
                    one(p.ite(w, c, S::K(0), r))
                } else {
                    let c = p.bin_cmp(Op::Ult, w, r, a[0]);
                    one(p.ite(w, c, S::K(mask(w)), r))
                }
            }
            Intr::Abs => {
                let w = ws[0] as u8;
                let p = self.pool();
                let n = p.bin(Op::Sub, w, S::K(0), a[0]);
                let c = p.bin_cmp(Op::Slt, w, a[0], S::K(0));
                one(p.ite(w, c, n, a[0]))
            }
            Intr::Alloc | Intr::AllocZ | Intr::Malloc => {
                let n = self.constval(st, a[0])?;
                if n > 1 << 24 {
                    return Err(Stop::Err("huge allocation".into()));
                }
                let p = self.alloc(st, n, true);
                one(S::K(p))
            }
            Intr::Calloc => {
                let n = self.constval(st, a[0])? * self.constval(st, a[1])?;
                let p = self.alloc(st, n, true);
                one(S::K(p))
            }
            Intr::PosixMemalign => {
                let n = self.constval(st, a[2])?;
                let d = self.addr(st, a[0])?;
                let p = self.alloc(st, n, true);
                self.store_conc(st, d, 64, S::K(p))?;
                one(S::K(0))
            }
            Intr::Dealloc | Intr::Free => {
                let p = self.addr(st, a[0])?;
                if p == 0 && i == Intr::Free {
                    return Ok(None);
                }
                self.kill(st, p)?;
                Ok(None)
            }
            Intr::Realloc | Intr::MRealloc => {
                let p = self.addr(st, a[0])?;
                let n = self.constval(st, if i == Intr::Realloc { a[3] } else { a[1] })?;
                if n > 1 << 24 {
                    return Err(Stop::Err("huge allocation".into()));
                }
                let q = self.alloc(st, n, true);
                if p != 0 {
                    let old = self.obj_size(st, p >> 32).unwrap_or(0);
                    self.copy_bytes(st, q, p, old.min(n))?;
                    self.kill(st, p)?;
                }
                one(S::K(q))
            }
            Intr::ObjSize => one(S::K(u64::MAX)),
            Intr::Ptrmask => one(self.pool().bin(Op::And, 64, a[0], a[1])),
            // ---- harness interface
            Intr::SxChar => {
                let v = self.constval(st, a[0])? as u32;
                let p = self.constval(st, a[1])?;
                let n = self.constval(st, a[2])?;
                let mut r = vec![];
                for k in 0..n {
                    let lo = self.load_conc(st, p + 8 * k, 32)?;
                    let hi = self.load_conc(st, p + 8 * k + 4, 32)?;
                    let (lo, hi) = (self.constval(st, lo)?, self.constval(st, hi)?);
                    r.push((lo, hi));
                }
                if n == 0 {
                    r = vec![(0, 0xD7FF), (0xE000, 0x10FFFF)];
                }
                r.sort_unstable();
                let mut q: Vec<(u64, u64)> = vec![];
                for (a, b) in r {
                    match q.last_mut() {
                        Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
                        _ => q.push((a, b)),
                    }
                }
                if let Some(&x) = self.fix.get(&v) {
                    q = vec![(x, x)];
                }
                let t = self.ctx.declare(&mut st.pc, v, 32, q);
                one(t)
            }
            Intr::SxAssume => {
                let c = self.bool_arg(a[0], ws[0]);
                if self.truth(st, c)? {
                    Ok(None)
                } else {
                    Err(Stop::Prune)
                }
            }
            Intr::SxCheck => {
                let c = self.bool_arg(a[0], ws[0]);
                let id = self.constval(st, a[1])?;
                self.stats.checks += 1;
                let c = self.ctx.simp(&st.pc, c);
                match c {
                    S::K(1) => {
                        self.stats.checks_const += 1;
                        return Ok(None);
                    }
                    S::K(_) => return Err(Stop::Bad("check".into(), format!("{}", id))),
                    _ => {}
                }
                match self.ctx.decide(&st.pc, c) {
                    Dec::T => {
                        if self.do_confirm && self.ctx.confirm(&st.pc, c) == Some(false) {
                            return Err(Stop::Err("solver disagrees with the domain filter".into()));
                        }
                        Ok(None)
                    }
                    Dec::F => Err(Stop::Bad("check".into(), format!("{}", id))),
                    Dec::Both(_) => Err(Stop::Fork(c)),
                    Dec::Unknown => Err(Stop::Err("solver gave no answer".into())),
                }
            }
            Intr::SxReach => {
                let id = self.constval(st, a[0])?;
                *self.reached.entry(id).or_insert(0) += 1;
                st.seen.push(id);
                Ok(None)
            }
            Intr::SxHeap => {
                let n: u64 = st.mem.iter().flatten().filter(|o| o.alive && o.heap).map(|o| o.size).sum();
                one(S::K(n))
            }
            Intr::SxConc => {
                let k = self.constval(st, a[0])?;
                one(S::K(k))
            }
            Intr::RefCcc => {
                let p = self.ctx_pool();
                let t = self.refs.ccc(p);
                one(self.pool().tab(t, 32, a[0]))
            }
            Intr::RefLen => {
                let f = self.constval(st, a[0])? as usize;
                let t = {
                    let Engine { refs, ctx, .. } = self;
                    refs.len_tab(&mut ctx.pool, f)
                };
                one(self.pool().tab(t, 32, a[1]))
            }
            Intr::RefAt => {
                let f = self.constval(st, a[0])? as usize;
                let k = self.constval(st, a[2])? as usize;
                let t = {
                    let Engine { refs, ctx, .. } = self;
                    refs.at_tab(&mut ctx.pool, f, k)
                };
                one(self.pool().tab(t, 32, a[1]))
            }
            Intr::RefPair => {
                let id = {
                    let Engine { refs, ctx, .. } = self;
                    refs.pair_tab(ctx)
                };
                one(self.pool().pair(id, 32, 32, a[0], a[1]))
            }
            Intr::RefProp => {
                let k = self.constval(st, a[0])? as usize;
                let t = {
                    let Engine { refs, ctx, .. } = self;
                    refs.prop_tab(&mut ctx.pool, k)
                };
                one(self.pool().tab(t, 32, a[1]))
            }
            Intr::Undefined => Err(Stop::Err(format!("call of undefined function {}", name))),
            Intr::Run | Intr::NoReturn => unreachable!(),
        }
    }
    fn ctx_pool(&mut self) -> *mut Pool {
        &mut self.ctx.pool
    }
    fn bool_arg(&mut self, s: S, w: u32) -> S {
        if w == 1 {
            s
        } else {
            let e = self.pool().eq(w as u8, s, S::K(0));
            self.pool().not(e)
        }
    }
    fn kill(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = p >> 32;
        if id < DYN_BASE || p & 0xFFFF_FFFF != 0 || self.obj_size(st, id).is_none() {
            return Err(Stop::Bad("memory".into(), format!("invalid free of {:#x}", p)));
        }
        st.mem[(id - DYN_BASE) as usize] = None;
        Ok(())
    }
}

pub fn short(n: &str) -> String {
    // v0 mangling: keep the identifiers only
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 1 && j + k <= b.len() && n[j..j + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}
