//! Hash-consed bit-vector terms (width <= 64), smart constructors, native evaluation,
//! finite tables and domains.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum S {
    K(u64),
    T(u32),
}
impl S {
    pub fn k(self) -> Option<u64> {
        if let S::K(x) = self {
            Some(x)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Add,
    Sub,
    Mul,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
    UDiv,
    URem,
    SDiv,
    SRem,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Trunc,
    /// read of w/8 bytes of constant object `aux` at byte offset a
    Sel,
    /// finite table `aux` applied to a
    Tab,
    /// a is a member of set `aux`
    Mem,
    /// binary finite table `aux` applied to (a, b)
    Pair,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub aw: u8,
    pub a: S,
    pub b: S,
    pub c: S,
    pub aux: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub supp: u64,
    pub lo: u64,
    pub hi: u64,
    pub has_sel: bool,
    /// contains Sel/Tab/Mem/Pair
    pub has_tab: bool,
    pub size: u32,
}

/// value on [lo,hi]: konst => val, otherwise x + val (wrapping, masked)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Piece {
    pub lo: u64,
    pub hi: u64,
    pub konst: bool,
    pub val: u64,
}

pub struct Table {
    pub pieces: Vec<Piece>,
    pub default: Option<u64>,
    pub w: u8,
    pub lo: u64,
    pub hi: u64,
}

pub struct PairTable {
    pub map: HashMap<(u64, u64), u64>,
    pub default: u64,
    pub by_first: HashMap<u64, Vec<(u64, u64)>>,
    pub by_second: HashMap<u64, Vec<(u64, u64)>>,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v << s) as i64) >> s
    }
}

pub fn h128<T: std::hash::Hash>(x: &T) -> u128 {
    use std::hash::Hasher;
    let mut a = std::collections::hash_map::DefaultHasher::new();
    let mut b = std::collections::hash_map::DefaultHasher::new();
    b.write_u64(0x9e3779b97f4a7c15);
    x.hash(&mut a);
    x.hash(&mut b);
    (a.finish() as u128) << 64 | b.finish() as u128
}

pub const XVAR: u32 = 63;

pub struct Pool {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, u32>,
    pub tables: Vec<Table>,
    table_map: HashMap<(Vec<Piece>, Option<u64>, u8), u32>,
    pub sets: Vec<Rc<Vec<u64>>>,
    set_map: HashMap<Vec<u64>, u32>,
    pub pairs: Vec<PairTable>,
    pub consts: HashMap<u32, Rc<Vec<u8>>>,
    canon_memo: HashMap<u32, u32>,
    rename_memo: HashMap<(u32, u32), u32>,
    /// widths of the variables
    pub var_w: Vec<u8>,
    shash: Vec<u128>,
    pair_hash: HashMap<u32, u128>,
    ren_memo: HashMap<(u32, Vec<(u32, u32)>), u32>,
    // scratch for eval
    stamp: Vec<u32>,
    sval: Vec<u64>,
    cur: u32,
    pub inversions: u64,
}

pub fn apply_op(op: Op, w: u8, aw: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::Lshr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::Ashr => {
            let s = sx(a, w);
            let sh = if b >= w as u64 { w as u64 - 1 } else { b };
            ((s >> sh) as u64) & m
        }
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                0
            } else {
                (sx(a, w).wrapping_div(sx(b, w)) as u64) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sx(a, w).wrapping_rem(sx(b, w)) as u64) & m
            }
        }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u64,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u64,
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u64) & m,
        Op::Trunc => a & m,
        _ => unreachable!(),
    }
}

pub fn read_bytes(b: &[u8], off: u64, n: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..n {
        let o = off.wrapping_add(i as u64);
        if (o as usize) < b.len() && o < u64::MAX / 2 {
            v |= (b[o as usize] as u64) << (8 * i);
        }
    }
    v
}

impl Table {
    #[inline]
    pub fn get(&self, x: u64) -> u64 {
        let p = &self.pieces;
        let i = p.partition_point(|q| q.hi < x);
        if i < p.len() && p[i].lo <= x {
            if p[i].konst {
                p[i].val
            } else {
                x.wrapping_add(p[i].val) & mask(self.w)
            }
        } else {
            self.default.unwrap_or(0)
        }
    }
}

impl Pool {
    pub fn new() -> Pool {
        Pool {
            nodes: vec![],
            info: vec![],
            map: HashMap::new(),
            tables: vec![],
            table_map: HashMap::new(),
            sets: vec![],
            set_map: HashMap::new(),
            pairs: vec![],
            consts: HashMap::new(),
            canon_memo: HashMap::new(),
            rename_memo: HashMap::new(),
            var_w: vec![],
            shash: vec![],
            pair_hash: HashMap::new(),
            ren_memo: HashMap::new(),
            stamp: vec![],
            sval: vec![],
            cur: 0,
            inversions: 0,
        }
    }
    pub fn supp(&self, s: S) -> u64 {
        match s {
            S::K(_) => 0,
            S::T(t) => self.info[t as usize].supp,
        }
    }
    pub fn has_sel(&self, s: S) -> bool {
        match s {
            S::K(_) => false,
            S::T(t) => self.info[t as usize].has_sel,
        }
    }
    pub fn has_tab(&self, s: S) -> bool {
        match s {
            S::K(_) => false,
            S::T(t) => self.info[t as usize].has_tab,
        }
    }
    pub fn size(&self, s: S) -> u32 {
        match s {
            S::K(_) => 0,
            S::T(t) => self.info[t as usize].size,
        }
    }
    pub fn range(&self, s: S) -> (u64, u64) {
        match s {
            S::K(k) => (k, k),
            S::T(t) => (self.info[t as usize].lo, self.info[t as usize].hi),
        }
    }
    pub fn node(&self, t: u32) -> &Node {
        &self.nodes[t as usize]
    }

    fn calc_info(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let mut supp = self.supp(n.a) | self.supp(n.b) | self.supp(n.c);
        let mut has_sel = self.has_sel(n.a) || self.has_sel(n.b) || self.has_sel(n.c);
        let mut has_tab = self.has_tab(n.a) || self.has_tab(n.b) || self.has_tab(n.c);
        let size = 1u32
            .saturating_add(self.size(n.a))
            .saturating_add(self.size(n.b))
            .saturating_add(self.size(n.c));
        let (alo, ahi) = self.range(n.a);
        let (blo, bhi) = self.range(n.b);
        let (clo, chi) = self.range(n.c);
        let (mut lo, mut hi) = (0u64, m);
        match n.op {
            Op::Var => {
                supp = 1u64 << n.aux;
            }
            Op::Add => {
                if let Some(h) = ahi.checked_add(bhi) {
                    if h <= m {
                        lo = alo + blo;
                        hi = h;
                    }
                }
                // x + (2^w - k) with x >= k
                if let S::K(k) = n.b {
                    let neg = k.wrapping_neg() & m;
                    if alo >= neg && hi == m {
                        lo = alo - neg;
                        hi = ahi - neg;
                    }
                }
            }
            Op::Sub => {
                if alo >= bhi {
                    lo = alo - bhi;
                    hi = ahi - blo;
                }
            }
            Op::Mul => {
                if let Some(h) = ahi.checked_mul(bhi) {
                    if h <= m {
                        lo = alo * blo;
                        hi = h;
                    }
                }
            }
            Op::And => {
                hi = ahi.min(bhi);
            }
            Op::Or | Op::Xor => {
                let x = ahi | bhi;
                hi = if x == 0 {
                    0
                } else {
                    (u64::MAX >> x.leading_zeros()) & m
                };
                if n.op == Op::Or {
                    lo = alo.max(blo);
                }
            }
            Op::Shl => {
                if let S::K(k) = n.b {
                    if k < 64 && ahi <= (m >> k) {
                        lo = alo << k;
                        hi = ahi << k;
                    }
                }
            }
            Op::Lshr => {
                if let S::K(k) = n.b {
                    if k < 64 {
                        lo = alo >> k;
                        hi = ahi >> k;
                    }
                } else {
                    hi = ahi;
                }
            }
            Op::UDiv => {
                if let S::K(k) = n.b {
                    if k > 0 {
                        lo = alo / k;
                        hi = ahi / k;
                    }
                }
            }
            Op::URem => {
                if bhi > 0 && blo > 0 {
                    hi = ahi.min(bhi - 1);
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                hi = 1;
            }
            Op::Mem => {
                hi = 1;
                has_tab = true;
            }
            Op::Ite => {
                lo = blo.min(clo);
                hi = bhi.max(chi);
            }
            Op::ZExt => {
                lo = alo;
                hi = ahi;
            }
            Op::Trunc => {
                if ahi <= m {
                    lo = alo;
                    hi = ahi;
                }
            }
            Op::Sel => {
                has_sel = true;
                has_tab = true;
            }
            Op::Tab => {
                let t = &self.tables[n.aux as usize];
                lo = t.lo;
                hi = t.hi;
                has_tab = true;
            }
            Op::Pair => {
                let p = &self.pairs[n.aux as usize];
                lo = p.default;
                hi = p.default;
                for v in p.map.values() {
                    lo = lo.min(*v);
                    hi = hi.max(*v);
                }
                has_tab = true;
            }
            _ => {}
        }
        Info {
            supp,
            lo,
            hi: hi.min(m),
            has_sel,
            has_tab,
            size,
        }
    }

    pub fn intern(&mut self, n: Node) -> u32 {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let i = self.calc_info(&n);
        let t = self.nodes.len() as u32;
        self.nodes.push(n);
        self.info.push(i);
        self.map.insert(n, t);
        t
    }
    fn raw(&mut self, op: Op, w: u8, aw: u8, a: S, b: S, c: S, aux: u32) -> S {
        let t = self.intern(Node {
            op,
            w,
            aw,
            a,
            b,
            c,
            aux,
        });
        let i = self.info[t as usize];
        if i.lo == i.hi && op != Op::Var {
            return S::K(i.lo);
        }
        S::T(t)
    }
    pub fn var(&mut self, idx: u32, w: u8, lo: u64, hi: u64) -> S {
        // the range is part of the identity of the variable node (stored in b, c)
        S::T(self.intern_var(idx, w, lo, hi))
    }
    fn intern_var(&mut self, idx: u32, w: u8, lo: u64, hi: u64) -> u32 {
        let n = Node {
            op: Op::Var,
            w,
            aw: w,
            a: S::K(0),
            b: S::K(lo),
            c: S::K(hi),
            aux: idx,
        };
        let t = self.intern(n);
        let i = &mut self.info[t as usize];
        i.lo = lo;
        i.hi = hi;
        t
    }
    pub fn table(&mut self, pieces: Vec<Piece>, default: Option<u64>, w: u8) -> u32 {
        let key = (pieces, default, w);
        if let Some(&t) = self.table_map.get(&key) {
            return t;
        }
        let (pieces, default, w) = key.clone();
        let mut lo = default.unwrap_or(u64::MAX);
        let mut hi = default.unwrap_or(0);
        for p in &pieces {
            if p.konst {
                lo = lo.min(p.val);
                hi = hi.max(p.val);
            } else {
                let a = p.lo.wrapping_add(p.val) & mask(w);
                let b = p.hi.wrapping_add(p.val) & mask(w);
                if a <= b {
                    lo = lo.min(a);
                    hi = hi.max(b);
                } else {
                    lo = 0;
                    hi = mask(w);
                }
            }
        }
        if lo > hi {
            lo = 0;
            hi = mask(w);
        }
        let id = self.tables.len() as u32;
        self.tables.push(Table {
            pieces,
            default,
            w,
            lo,
            hi,
        });
        self.table_map.insert(key, id);
        id
    }
    pub fn set(&mut self, mut v: Vec<u64>) -> u32 {
        v.sort_unstable();
        v.dedup();
        if let Some(&t) = self.set_map.get(&v) {
            return t;
        }
        let id = self.sets.len() as u32;
        self.sets.push(Rc::new(v.clone()));
        self.set_map.insert(v, id);
        id
    }
    pub fn tab(&mut self, id: u32, aw: u8, a: S) -> S {
        let w = self.tables[id as usize].w;
        if let S::K(k) = a {
            return S::K(self.tables[id as usize].get(k));
        }
        let t = &self.tables[id as usize];
        if t.pieces.len() == 1 && (t.default.is_none()) {
            let p = t.pieces[0];
            if p.konst {
                return S::K(p.val);
            }
            // x + val, in width w
            let b = if w == aw {
                a
            } else if w > aw {
                self.zext(aw, w, a)
            } else {
                self.trunc(aw, w, a)
            };
            return self.bin(Op::Add, w, b, S::K(p.val));
        }
        self.raw(Op::Tab, w, aw, a, S::K(0), S::K(0), id)
    }
    pub fn mem(&mut self, set: u32, aw: u8, a: S) -> S {
        let s = self.sets[set as usize].clone();
        match a {
            S::K(k) => S::K(s.binary_search(&k).is_ok() as u64),
            _ => {
                if s.is_empty() {
                    return S::K(0);
                }
                let (lo, hi) = self.range(a);
                if s[s.len() - 1] < lo || s[0] > hi {
                    return S::K(0);
                }
                if s.len() == 1 {
                    return self.eq(aw, a, S::K(s[0]));
                }
                self.raw(Op::Mem, 1, aw, a, S::K(0), S::K(0), set)
            }
        }
    }
    pub fn pair(&mut self, id: u32, w: u8, aw: u8, a: S, b: S) -> S {
        let p = &self.pairs[id as usize];
        match (a, b) {
            (S::K(x), S::K(y)) => S::K(*p.map.get(&(x, y)).unwrap_or(&p.default)),
            (S::K(x), _) => {
                let d = p.default;
                let pieces: Vec<Piece> = p
                    .by_first
                    .get(&x)
                    .map(|v| {
                        v.iter()
                            .map(|&(y, r)| Piece {
                                lo: y,
                                hi: y,
                                konst: true,
                                val: r,
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                if pieces.is_empty() {
                    return S::K(d);
                }
                let t = self.table(pieces, Some(d), w);
                self.tab(t, aw, b)
            }
            (_, S::K(y)) => {
                let d = p.default;
                let pieces: Vec<Piece> = p
                    .by_second
                    .get(&y)
                    .map(|v| {
                        v.iter()
                            .map(|&(x, r)| Piece {
                                lo: x,
                                hi: x,
                                konst: true,
                                val: r,
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                if pieces.is_empty() {
                    return S::K(d);
                }
                let t = self.table(pieces, Some(d), w);
                self.tab(t, aw, a)
            }
            _ => self.raw(Op::Pair, w, aw, a, b, S::K(0), id),
        }
    }
    pub fn not(&mut self, a: S) -> S {
        match a {
            S::K(k) => S::K(k ^ 1),
            S::T(t) => {
                let n = *self.node(t);
                match (n.op, n.b) {
                    (Op::Xor, S::K(1)) if n.w == 1 => n.a,
                    (Op::Ult, _) => self.bin_cmp(Op::Ule, n.aw, n.b, n.a),
                    (Op::Ule, _) => self.bin_cmp(Op::Ult, n.aw, n.b, n.a),
                    (Op::Slt, _) => self.bin_cmp(Op::Sle, n.aw, n.b, n.a),
                    (Op::Sle, _) => self.bin_cmp(Op::Slt, n.aw, n.b, n.a),
                    _ => self.raw(Op::Xor, 1, 1, a, S::K(1), S::K(0), 0),
                }
            }
        }
    }
    pub fn bin(&mut self, op: Op, w: u8, a: S, b: S) -> S {
        if let (S::K(x), S::K(y)) = (a, b) {
            return S::K(apply_op(op, w, w, x, y));
        }
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if a.k().is_some() || (b.k().is_none() && tid(a) > tid(b)) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        match (op, b) {
            (Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::Lshr | Op::Ashr, S::K(0)) => return a,
            (Op::Mul | Op::And, S::K(0)) => return S::K(0),
            (Op::Mul | Op::UDiv | Op::SDiv, S::K(1)) => return a,
            (Op::And, S::K(k)) if k == m => return a,
            (Op::Or, S::K(k)) if k == m => return S::K(m),
            (Op::Shl | Op::Lshr, S::K(k)) if k >= w as u64 => return S::K(0),
            (Op::URem, S::K(1)) => return S::K(0),
            _ => {}
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor | Op::URem => return S::K(0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if op == Op::Xor && w == 1 && b == S::K(1) {
            return self.not(a);
        }
        if op == Op::Sub {
            if let S::K(k) = b {
                return self.bin(Op::Add, w, a, S::K(k.wrapping_neg() & m));
            }
            // (x + k1) - (x + k2)
            let (xa, ka) = self.split_add(a);
            let (xb, kb) = self.split_add(b);
            if xa == xb {
                return S::K(ka.wrapping_sub(kb) & m);
            }
        }
        if op == Op::Add {
            if let (S::T(t), S::K(k)) = (a, b) {
                let n = *self.node(t);
                if n.op == Op::Add {
                    if let S::K(k2) = n.b {
                        return self.bin(Op::Add, w, n.a, S::K(k.wrapping_add(k2) & m));
                    }
                }
            }
            // (x + k) + y  ->  (x + y) + k
            if let (S::T(t), S::T(_)) = (a, b) {
                let n = *self.node(t);
                if n.op == Op::Add {
                    if let S::K(_) = n.b {
                        let s = self.bin(Op::Add, w, n.a, b);
                        return self.bin(Op::Add, w, s, n.b);
                    }
                }
            }
            if let (S::T(_), S::T(t)) = (a, b) {
                let n = *self.node(t);
                if n.op == Op::Add {
                    if let S::K(_) = n.b {
                        let s = self.bin(Op::Add, w, a, n.a);
                        return self.bin(Op::Add, w, s, n.b);
                    }
                }
            }
        }
        if op == Op::And {
            if let S::K(k) = b {
                let (_, hi) = self.range(a);
                // mask covers every possible bit
                let need = if hi == 0 { 0 } else { u64::MAX >> hi.leading_zeros() };
                if need & !k == 0 {
                    return a;
                }
                if need & k == 0 {
                    return S::K(0);
                }
            }
        }
        if op == Op::Lshr {
            if let S::K(k) = b {
                let (_, hi) = self.range(a);
                if k < 64 && (hi >> k) == 0 {
                    return S::K(0);
                }
                if let S::T(t) = a {
                    let n = *self.node(t);
                    if n.op == Op::Lshr {
                        if let S::K(k2) = n.b {
                            return self.bin(Op::Lshr, w, n.a, S::K(k + k2));
                        }
                    }
                    // (x << k) >> k when no bits are lost
                    if n.op == Op::Shl && n.b == b {
                        let (_, h) = self.range(n.a);
                        if h <= (m >> k) {
                            return n.a;
                        }
                    }
                    // ((x << k1) | y) >> k2 , y < 2^k2, k1 >= k2
                    if n.op == Op::Or {
                        let sa = self.bin(Op::Lshr, w, n.a, b);
                        let sb = self.bin(Op::Lshr, w, n.b, b);
                        return self.bin(Op::Or, w, sa, sb);
                    }
                    if n.op == Op::Shl {
                        if let S::K(k1) = n.b {
                            let (_, h) = self.range(n.a);
                            if k1 < 64 && h <= (m >> k1) {
                                if k1 > k {
                                    return self.bin(Op::Shl, w, n.a, S::K(k1 - k));
                                } else {
                                    return self.bin(Op::Lshr, w, n.a, S::K(k - k1));
                                }
                            }
                        }
                    }
                }
            }
        }
        self.raw(op, w, w, a, b, S::K(0), 0)
    }
    pub fn split_add(&self, a: S) -> (S, u64) {
        if let S::T(t) = a {
            let n = self.node(t);
            if n.op == Op::Add {
                if let S::K(k) = n.b {
                    return (n.a, k);
                }
            }
        }
        (a, 0)
    }
    pub fn bin_cmp(&mut self, op: Op, aw: u8, a: S, b: S) -> S {
        match op {
            Op::Eq => return self.eq(aw, a, b),
            _ => {}
        }
        if let (S::K(x), S::K(y)) = (a, b) {
            return S::K(apply_op(op, 1, aw, x, y));
        }
        if a == b {
            return S::K(matches!(op, Op::Ule | Op::Sle) as u64);
        }
        let (alo, ahi) = self.range(a);
        let (blo, bhi) = self.range(b);
        let half = 1u64 << (aw - 1);
        let mut op = op;
        if matches!(op, Op::Slt | Op::Sle) && ahi < half && bhi < half {
            op = if op == Op::Slt { Op::Ult } else { Op::Ule };
        }
        match op {
            Op::Ult => {
                if ahi < blo {
                    return S::K(1);
                }
                if alo >= bhi {
                    return S::K(0);
                }
            }
            Op::Ule => {
                if ahi <= blo {
                    return S::K(1);
                }
                if alo > bhi {
                    return S::K(0);
                }
            }
            _ => {}
        }
        self.raw(op, 1, aw, a, b, S::K(0), 0)
    }
    pub fn eq(&mut self, aw: u8, a: S, b: S) -> S {
        let (mut a, mut b) = (a, b);
        if let (S::K(x), S::K(y)) = (a, b) {
            return S::K((x == y) as u64);
        }
        if a == b {
            return S::K(1);
        }
        if a.k().is_some() || (b.k().is_none() && tid(a) > tid(b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (alo, ahi) = self.range(a);
        let (blo, bhi) = self.range(b);
        if ahi < blo || bhi < alo {
            return S::K(0);
        }
        if aw == 1 {
            if let S::K(k) = b {
                return if k == 1 { a } else { self.not(a) };
            }
        }
        if let (S::T(t), S::K(k)) = (a, b) {
            let n = *self.node(t);
            match n.op {
                Op::ZExt => return self.eq(n.aw, n.a, S::K(k)), // range check above guarantees k fits? checked below
                Op::Add => {
                    if let S::K(k2) = n.b {
                        return self.eq(aw, n.a, S::K(k.wrapping_sub(k2) & mask(aw)));
                    }
                }
                Op::Ite => {
                    if let (S::K(x), S::K(y)) = (n.b, n.c) {
                        return match (x == k, y == k) {
                            (true, true) => S::K(1),
                            (true, false) => n.a,
                            (false, true) => self.not(n.a),
                            (false, false) => S::K(0),
                        };
                    }
                    // one constant branch that cannot be k
                    if let S::K(y) = n.c {
                        let e = self.eq(aw, n.b, b);
                        if y != k {
                            return self.and1(n.a, e);
                        }
                        let na = self.not(n.a);
                        return self.bin(Op::Or, 1, na, e);
                    }
                    if let S::K(x) = n.b {
                        let e = self.eq(aw, n.c, b);
                        if x != k {
                            let na = self.not(n.a);
                            return self.and1(na, e);
                        }
                        return self.bin(Op::Or, 1, n.a, e);
                    }
                }
                _ => {}
            }
        }
        let (xa, ka) = self.split_add(a);
        let (xb, kb) = self.split_add(b);
        if xa == xb && ka != kb {
            return S::K(0);
        }
        if let (S::T(ta), S::T(tb)) = (a, b) {
            let (na, nb) = (*self.node(ta), *self.node(tb));
            if na.op == Op::ZExt && nb.op == Op::ZExt && na.aw == nb.aw {
                return self.eq(na.aw, na.a, nb.a);
            }
            if self.info[tb as usize].has_sel {
                if let Some(s) = self.invert_eq(ta, tb, aw) {
                    return s;
                }
            }
            if self.info[ta as usize].has_sel {
                if let Some(s) = self.invert_eq(tb, ta, aw) {
                    return s;
                }
            }
        }
        self.raw(Op::Eq, 1, aw, a, b, S::K(0), 0)
    }
    pub fn and1(&mut self, a: S, b: S) -> S {
        self.bin(Op::And, 1, a, b)
    }
    pub fn ite(&mut self, w: u8, c: S, a: S, b: S) -> S {
        if let S::K(k) = c {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if w == 1 {
            match (a, b) {
                (S::K(1), S::K(0)) => return c,
                (S::K(0), S::K(1)) => return self.not(c),
                (S::K(1), _) => return self.bin(Op::Or, 1, c, b),
                (S::K(0), _) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (_, S::K(0)) => return self.and1(c, a),
                (_, S::K(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, 1, n, a);
                }
                _ => {}
            }
        }
        if let S::T(ct) = c {
            let n = *self.node(ct);
            if n.op == Op::Xor && n.w == 1 && n.b == S::K(1) {
                return self.ite(w, n.a, b, a);
            }
            let mut a = a;
            if n.op == Op::Mem && self.has_sel(a) {
                if let S::T(x) = n.a {
                    a = self.restrict(a, x, n.aux);
                }
            }
            return self.raw(Op::Ite, w, w, c, a, b, 0);
        }
        unreachable!()
    }
    pub fn zext(&mut self, aw: u8, w: u8, a: S) -> S {
        if aw == w {
            return a;
        }
        match a {
            S::K(k) => S::K(k),
            S::T(t) => {
                let n = *self.node(t);
                if n.op == Op::ZExt {
                    return self.zext(n.aw, w, n.a);
                }
                self.raw(Op::ZExt, w, aw, a, S::K(0), S::K(0), 0)
            }
        }
    }
    pub fn sext(&mut self, aw: u8, w: u8, a: S) -> S {
        if aw == w {
            return a;
        }
        match a {
            S::K(k) => S::K((sx(k, aw) as u64) & mask(w)),
            _ => {
                let (_, hi) = self.range(a);
                if hi < (1u64 << (aw - 1)) {
                    return self.zext(aw, w, a);
                }
                self.raw(Op::SExt, w, aw, a, S::K(0), S::K(0), 0)
            }
        }
    }
    pub fn trunc(&mut self, aw: u8, w: u8, a: S) -> S {
        if aw == w {
            return a;
        }
        match a {
            S::K(k) => S::K(k & mask(w)),
            S::T(t) => {
                let n = *self.node(t);
                match n.op {
                    Op::ZExt | Op::SExt => {
                        if n.aw == w {
                            return n.a;
                        }
                        if n.aw > w {
                            return self.trunc(n.aw, w, n.a);
                        }
                        if n.op == Op::ZExt {
                            return self.zext(n.aw, w, n.a);
                        }
                    }
                    Op::Trunc => return self.trunc(n.aw, w, n.a),
                    Op::Sel => {
                        if w % 8 == 0 {
                            return self.sel(n.aux, w, n.a);
                        }
                    }
                    Op::Lshr => {
                        if let (S::T(t2), S::K(k)) = (n.a, n.b) {
                            let n2 = *self.node(t2);
                            if n2.op == Op::Sel && k % 8 == 0 && w % 8 == 0 && k + w as u64 <= n2.w as u64 {
                                let off = self.bin(Op::Add, 64, n2.a, S::K(k / 8));
                                return self.sel(n2.aux, w, off);
                            }
                        }
                    }
                    Op::Or | Op::And | Op::Xor => {
                        let x = self.trunc(aw, w, n.a);
                        let y = self.trunc(aw, w, n.b);
                        return self.bin(n.op, w, x, y);
                    }
                    Op::Shl => {
                        if let S::K(k) = n.b {
                            if k >= w as u64 {
                                return S::K(0);
                            }
                            let x = self.trunc(aw, w, n.a);
                            return self.bin(Op::Shl, w, x, S::K(k));
                        }
                    }
                    Op::Ite => {
                        if n.b.k().is_some() || n.c.k().is_some() {
                            let x = self.trunc(aw, w, n.b);
                            let y = self.trunc(aw, w, n.c);
                            return self.ite(w, n.a, x, y);
                        }
                    }
                    _ => {}
                }
                self.raw(Op::Trunc, w, aw, a, S::K(0), S::K(0), 0)
            }
        }
    }
    /// read of w/8 bytes at byte offset `off` of the constant object
    pub fn sel(&mut self, obj: u32, w: u8, off: S) -> S {
        assert!(w % 8 == 0);
        match off {
            S::K(k) => {
                let b = self.consts[&obj].clone();
                S::K(read_bytes(&b, k, (w / 8) as usize))
            }
            _ => self.raw(Op::Sel, w, 64, off, S::K(0), S::K(0), obj),
        }
    }

    // ---- evaluation
    fn begin(&mut self) {
        if self.stamp.len() < self.nodes.len() {
            self.stamp.resize(self.nodes.len() + 1024, 0);
            self.sval.resize(self.nodes.len() + 1024, 0);
        }
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.cur = 1;
        }
    }
    fn ev(&mut self, s: S, env: &dyn Fn(u32) -> u64) -> u64 {
        let t = match s {
            S::K(k) => return k,
            S::T(t) => t as usize,
        };
        if self.stamp[t] == self.cur {
            return self.sval[t];
        }
        let n = self.nodes[t];
        let v = match n.op {
            Op::Var => env(n.aux),
            Op::Ite => {
                if self.ev(n.a, env) != 0 {
                    self.ev(n.b, env)
                } else {
                    self.ev(n.c, env)
                }
            }
            _ => {
                let a = self.ev(n.a, env);
                let b = self.ev(n.b, env);
                self.ap(&n, a, b)
            }
        };
        self.stamp[t] = self.cur;
        self.sval[t] = v;
        v
    }
    #[inline]
    fn ap(&self, n: &Node, a: u64, b: u64) -> u64 {
        match n.op {
            Op::Sel => read_bytes(&self.consts[&n.aux], a, (n.w / 8) as usize),
            Op::Tab => self.tables[n.aux as usize].get(a),
            Op::Mem => self.sets[n.aux as usize].binary_search(&a).is_ok() as u64,
            Op::Pair => {
                let p = &self.pairs[n.aux as usize];
                *p.map.get(&(a, b)).unwrap_or(&p.default)
            }
            _ => apply_op(n.op, n.w, n.aw, a, b),
        }
    }
    pub fn eval(&mut self, s: S, model: &[u64]) -> u64 {
        self.begin();
        self.ev(s, &|v| model.get(v as usize).copied().unwrap_or(0))
    }
    /// evaluate q with subterm p replaced by the value x (q must depend on variables only through p)
    pub fn eval_through(&mut self, q: S, p: u32, x: u64) -> u64 {
        self.begin();
        self.stamp[p as usize] = self.cur;
        self.sval[p as usize] = x;
        self.ev(q, &|_| 0)
    }
    pub fn topo(&self, root: u32, stop: Option<u32>) -> Vec<u32> {
        let mut out = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![(root, false)];
        while let Some((t, done)) = st.pop() {
            if done {
                out.push(t);
                continue;
            }
            if !seen.insert(t) {
                continue;
            }
            st.push((t, true));
            if Some(t) == stop {
                continue;
            }
            let n = &self.nodes[t as usize];
            for s in [n.a, n.b, n.c] {
                if let S::T(u) = s {
                    if !seen.contains(&u) {
                        st.push((u, false));
                    }
                }
            }
        }
        out
    }
    /// evaluates root for every value of the term `stop` (or of the only variable)
    pub fn eval_vec(&self, root: u32, order: &[u32], stop: u32, xs: &[u64], bufs: &mut HashMap<u32, Vec<u64>>) {
        let n = xs.len();
        for &t in order {
            let mut out = bufs.remove(&t).unwrap_or_default();
            out.clear();
            let nd = &self.nodes[t as usize];
            if t == stop || nd.op == Op::Var {
                out.extend_from_slice(xs);
                bufs.insert(t, out);
                continue;
            }
            self.eval_node(nd, n, bufs, &mut out);
            bufs.insert(t, out);
        }
        let _ = root;
    }

    // ---- structural helpers
    /// true if every variable occurrence of q is below p
    pub fn through(&self, q: S, p: u32) -> bool {
        let root = match q {
            S::K(_) => return true,
            S::T(t) => t,
        };
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![root];
        while let Some(t) = st.pop() {
            if t == p || !seen.insert(t) {
                continue;
            }
            let n = &self.nodes[t as usize];
            if n.op == Op::Var {
                return false;
            }
            for s in [n.a, n.b, n.c] {
                if let S::T(u) = s {
                    st.push(u);
                }
            }
        }
        true
    }
    /// p == q where q reads a constant table at an index computed from p:
    /// exactly the table entries that map to themselves can be equal.
    fn invert_eq(&mut self, p: u32, q: u32, aw: u8) -> Option<S> {
        if !self.through(S::T(q), p) {
            return None;
        }
        // q = g(Sel(obj, off)) with a single Sel on top
        let mut t = q;
        let mut chain = vec![];
        loop {
            let n = *self.node(t);
            match n.op {
                Op::Sel => break,
                Op::ZExt | Op::Trunc => {
                    chain.push(t);
                    t = match n.a {
                        S::T(u) => u,
                        _ => return None,
                    };
                }
                Op::Lshr | Op::And | Op::Add => {
                    if n.b.k().is_none() {
                        return None;
                    }
                    chain.push(t);
                    t = match n.a {
                        S::T(u) => u,
                        _ => return None,
                    };
                }
                _ => return None,
            }
        }
        let sel = *self.node(t);
        let off = match sel.a {
            S::T(u) => u,
            _ => return None,
        };
        let (base, k) = self.split_add(S::T(off));
        let stride = match base {
            S::T(u) => {
                let n = *self.node(u);
                match (n.op, n.b) {
                    (Op::Mul, S::K(s)) => s,
                    (Op::Shl, S::K(s)) => 1u64 << s,
                    _ => 1,
                }
            }
            _ => 1,
        };
        let bytes = self.consts.get(&sel.aux)?.clone();
        let nb = (sel.w / 8) as u64;
        let mut cands = vec![];
        let mut o = k % stride;
        while o + nb <= bytes.len() as u64 {
            let mut v = read_bytes(&bytes, o, nb as usize);
            for &c in chain.iter().rev() {
                let n = *self.node(c);
                let b = n.b.k().unwrap_or(0);
                v = apply_op(n.op, n.w, n.aw, v, b);
            }
            cands.push(v);
            o += stride;
        }
        cands.sort_unstable();
        cands.dedup();
        let (lo, hi) = self.range(S::T(p));
        let mut out = vec![];
        for x in cands {
            if x < lo || x > hi {
                continue;
            }
            if self.eval_through(S::T(q), p, x) == x {
                out.push(x);
            }
        }
        self.inversions += 1;
        let s = self.set(out);
        Some(self.mem(s, aw, S::T(p)))
    }
    /// rewrite t, valid only where x is in the set: table reads indexed through x become finite tables over x
    pub fn restrict(&mut self, t: S, x: u32, set: u32) -> S {
        let mut memo = HashMap::new();
        self.restrict_rec(t, x, set, &mut memo)
    }
    fn restrict_rec(&mut self, t: S, x: u32, set: u32, memo: &mut HashMap<u32, S>) -> S {
        let u = match t {
            S::K(_) => return t,
            S::T(u) => u,
        };
        if !self.info[u as usize].has_sel || u == x {
            return t;
        }
        if let Some(&r) = memo.get(&u) {
            return r;
        }
        let n = *self.node(u);
        let r = if self.through(t, x) {
            let s = self.sets[set as usize].clone();
            let mut pieces: Vec<Piece> = vec![];
            for &v in s.iter() {
                let r = self.eval_through(t, x, v);
                if let Some(l) = pieces.last_mut() {
                    if l.konst && l.val == r {
                        l.hi = v;
                        continue;
                    }
                }
                pieces.push(Piece {
                    lo: v,
                    hi: v,
                    konst: true,
                    val: r,
                });
            }
            let id = self.table(pieces, None, n.w);
            let xw = self.node(x).w;
            self.tab(id, xw, S::T(x))
        } else {
            let a = self.restrict_rec(n.a, x, set, memo);
            let b = self.restrict_rec(n.b, x, set, memo);
            let c = self.restrict_rec(n.c, x, set, memo);
            self.rebuild(&n, a, b, c)
        };
        memo.insert(u, r);
        r
    }
    pub fn rebuild(&mut self, n: &Node, a: S, b: S, c: S) -> S {
        match n.op {
            Op::Var => unreachable!(),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.bin_cmp(n.op, n.aw, a, b),
            Op::Ite => self.ite(n.w, a, b, c),
            Op::ZExt => self.zext(n.aw, n.w, a),
            Op::SExt => self.sext(n.aw, n.w, a),
            Op::Trunc => self.trunc(n.aw, n.w, a),
            Op::Sel => self.sel(n.aux, n.w, a),
            Op::Tab => self.tab(n.aux, n.aw, a),
            Op::Mem => self.mem(n.aux, n.aw, a),
            Op::Pair => self.pair(n.aux, n.w, n.aw, a, b),
            _ => self.bin(n.op, n.w, a, b),
        }
    }
    /// substitute some variables by terms
    pub fn subst(&mut self, t: S, f: &dyn Fn(u32) -> Option<S>, mask: u64, memo: &mut HashMap<u32, S>) -> S {
        let u = match t {
            S::K(_) => return t,
            S::T(u) => u,
        };
        if self.info[u as usize].supp & mask == 0 {
            return t;
        }
        if let Some(&r) = memo.get(&u) {
            return r;
        }
        let n = *self.node(u);
        let r = if n.op == Op::Var {
            f(n.aux).unwrap_or(t)
        } else {
            let a = self.subst(n.a, f, mask, memo);
            let b = self.subst(n.b, f, mask, memo);
            let c = self.subst(n.c, f, mask, memo);
            self.rebuild(&n, a, b, c)
        };
        memo.insert(u, r);
        r
    }
    /// rename the only variable of t to the canonical variable
    pub fn canon(&mut self, t: u32) -> u32 {
        if let Some(&r) = self.canon_memo.get(&t) {
            return r;
        }
        let n = *self.node(t);
        let ren = |p: &mut Pool, s: S| match s {
            S::K(_) => s,
            S::T(u) => S::T(p.canon(u)),
        };
        let r = if n.op == Op::Var {
            let (lo, hi) = self.range(S::T(t));
            self.intern_var(XVAR, n.w, lo, hi)
        } else {
            let a = ren(self, n.a);
            let b = ren(self, n.b);
            let c = ren(self, n.c);
            self.intern(Node { a, b, c, ..n })
        };
        self.canon_memo.insert(t, r);
        r
    }
    /// structural renaming of variables (from, to), the structure is left as it is
    pub fn rename(&mut self, t: u32, m: &[(u32, u32)]) -> u32 {
        if m.iter().all(|(a, b)| a == b) {
            return t;
        }
        let supp = self.info[t as usize].supp;
        if supp == 0 {
            return t;
        }
        let sub: Vec<(u32, u32)> = m.iter().copied().filter(|(a, _)| supp >> a & 1 == 1).collect();
        let key = (t, sub);
        if let Some(&r) = self.ren_memo.get(&key) {
            return r;
        }
        let n = *self.node(t);
        let r = if n.op == Op::Var {
            match key.1.iter().find(|(a, _)| *a == n.aux) {
                Some(&(_, b)) => {
                    let (lo, hi) = self.range(S::T(t));
                    self.intern_var(b, n.w, lo, hi)
                }
                None => t,
            }
        } else {
            let mut f = |s: S| match s {
                S::K(_) => s,
                S::T(u) => S::T(self.rename(u, m)),
            };
            let a = f(n.a);
            let b = f(n.b);
            let c = f(n.c);
            self.intern(Node { a, b, c, ..n })
        };
        self.ren_memo.insert(key, r);
        r
    }
    /// content hash, the same in every process
    pub fn shash(&mut self, t: u32) -> u128 {
        if self.shash.len() < self.nodes.len() {
            self.shash.resize(self.nodes.len(), 0);
        }
        if self.shash[t as usize] != 0 {
            return self.shash[t as usize];
        }
        let n = *self.node(t);
        let mut sub = |s: S| -> (u8, u128) {
            match s {
                S::K(k) => (0, k as u128),
                S::T(u) => (1, self.shash(u)),
            }
        };
        let a = sub(n.a);
        let b = sub(n.b);
        let c = sub(n.c);
        let aux: u128 = match n.op {
            Op::Tab => {
                let t = &self.tables[n.aux as usize];
                let p: Vec<(u64, u64, bool, u64)> = t.pieces.iter().map(|p| (p.lo, p.hi, p.konst, p.val)).collect();
                h128(&(p, t.default, t.w))
            }
            Op::Mem => h128(&*self.sets[n.aux as usize]),
            Op::Pair => {
                if let Some(&h) = self.pair_hash.get(&n.aux) {
                    h
                } else {
                    let p = &self.pairs[n.aux as usize];
                    let mut v: Vec<((u64, u64), u64)> = p.map.iter().map(|(k, v)| (*k, *v)).collect();
                    v.sort_unstable();
                    let h = h128(&(v, p.default));
                    self.pair_hash.insert(n.aux, h);
                    h
                }
            }
            _ => n.aux as u128,
        };
        let h = h128(&(n.op, n.w, n.aw, a, b, c, aux)).max(1);
        self.shash[t as usize] = h;
        h
    }
    /// rename the canonical variable to v
    pub fn uncanon(&mut self, t: u32, v: u32) -> u32 {
        if let Some(&r) = self.rename_memo.get(&(t, v)) {
            return r;
        }
        let n = *self.node(t);
        let r = if n.op == Op::Var {
            if n.aux == XVAR {
                let (lo, hi) = self.range(S::T(t));
                self.intern_var(v, n.w, lo, hi)
            } else {
                t
            }
        } else {
            let mut f = |s: S| match s {
                S::K(_) => s,
                S::T(u) => S::T(self.uncanon(u, v)),
            };
            let a = f(n.a);
            let b = f(n.b);
            let c = f(n.c);
            self.intern(Node { a, b, c, ..n })
        };
        self.rename_memo.insert((t, v), r);
        r
    }
    pub fn show(&self, s: S) -> String {
        self.show_d(s, 6)
    }
    fn show_d(&self, s: S, d: u32) -> String {
        match s {
            S::K(k) => format!("{:#x}", k),
            S::T(t) => {
                let n = self.node(t);
                if n.op == Op::Var {
                    return format!("v{}", n.aux);
                }
                if d == 0 {
                    return "..".into();
                }
                format!(
                    "({:?}{}#{} {} {} {})",
                    n.op,
                    n.w,
                    n.aux,
                    self.show_d(n.a, d - 1),
                    self.show_d(n.b, d - 1),
                    self.show_d(n.c, d - 1)
                )
            }
        }
    }
}

fn tid(s: S) -> u32 {
    match s {
        S::K(_) => u32::MAX,
        S::T(t) => t,
    }
}

// ---------------------------------------------------------------- domains

pub type Ranges = Rc<Vec<(u64, u64)>>;

pub struct Doms {
    pub doms: Vec<Ranges>,
    pub count: Vec<u64>,
    map: HashMap<Vec<(u64, u64)>, u32>,
    filter_cache: HashMap<(u32, u32), (u32, u32)>,
    tab_cache: HashMap<(u32, u32), Option<Rc<Vec<Piece>>>>,
    base_cache: HashMap<u32, Ranges>,
    pub base: u32,
    pub tab_evals: u64,
    hashes: Vec<u128>,
}

pub const EMPTY: u32 = 0;

impl Doms {
    pub fn new() -> Doms {
        let mut d = Doms {
            doms: vec![],
            count: vec![],
            map: HashMap::new(),
            filter_cache: HashMap::new(),
            tab_cache: HashMap::new(),
            base_cache: HashMap::new(),
            base: 0,
            tab_evals: 0,
            hashes: vec![],
        };
        d.intern(vec![]);
        d.base = d.intern(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]);
        d
    }
    pub fn intern(&mut self, r: Vec<(u64, u64)>) -> u32 {
        if let Some(&i) = self.map.get(&r) {
            return i;
        }
        let i = self.doms.len() as u32;
        self.count.push(r.iter().map(|(a, b)| b - a + 1).sum());
        self.doms.push(Rc::new(r.clone()));
        self.hashes.push(h128(&r));
        self.map.insert(r, i);
        i
    }
    pub fn hash(&self, d: u32) -> u128 {
        self.hashes[d as usize]
    }
    pub fn get(&self, d: u32) -> Ranges {
        self.doms[d as usize].clone()
    }
    pub fn first(&self, d: u32) -> u64 {
        self.doms[d as usize][0].0
    }
    pub fn contains(&self, d: u32, x: u64) -> bool {
        let r = &self.doms[d as usize];
        let i = r.partition_point(|p| p.1 < x);
        i < r.len() && r[i].0 <= x
    }
    pub fn single(&self, d: u32) -> Option<u64> {
        if self.count[d as usize] == 1 {
            Some(self.first(d))
        } else {
            None
        }
    }
    fn for_chunks(r: &[(u64, u64)], mut f: impl FnMut(&[u64]) -> bool) {
        let mut buf = Vec::with_capacity(8192);
        for &(a, b) in r {
            for x in a..=b {
                buf.push(x);
                if buf.len() == 8192 {
                    if !f(&buf) {
                        return;
                    }
                    buf.clear();
                }
            }
        }
        if !buf.is_empty() {
            f(&buf);
        }
    }
    /// split dom by the boolean term `t` whose only variable is v
    pub fn filter(&mut self, pool: &mut Pool, t: u32, dom: u32) -> (u32, u32) {
        let c = pool.canon(t);
        if let Some(&r) = self.filter_cache.get(&(c, dom)) {
            return r;
        }
        let order = pool.topo(c, None);
        let xv = *order.iter().find(|&&u| pool.node(u).op == Op::Var).unwrap();
        let mut yes: Vec<(u64, u64)> = vec![];
        let mut no: Vec<(u64, u64)> = vec![];
        let mut bufs = HashMap::new();
        let ranges = self.get(dom);
        fn push(v: &mut Vec<(u64, u64)>, x: u64) {
            if let Some(l) = v.last_mut() {
                if l.1 + 1 == x {
                    l.1 = x;
                    return;
                }
            }
            v.push((x, x));
        }
        let n = pool.node(c);
        if n.op == Op::Mem && n.a == S::T(xv) {
            // fast path
            let set = pool.sets[n.aux as usize].clone();
            for &x in set.iter() {
                if self.contains(dom, x) {
                    push(&mut yes, x);
                }
            }
            for &(a, b) in ranges.iter() {
                let mut cur = a;
                let i = set.partition_point(|&s| s < a);
                for &x in set[i..].iter() {
                    if x > b {
                        break;
                    }
                    if cur < x {
                        no.push((cur, x - 1));
                    }
                    cur = x + 1;
                }
                if cur <= b {
                    no.push((cur, b));
                }
            }
        } else if self.count[dom as usize] > 20000
            && ranges[ranges.len() - 1].1 <= 0x10FFFF
            && !ranges.iter().any(|r| r.0 <= 0xDFFF && r.1 >= 0xD800)
        {
            if !self.base_cache.contains_key(&c) {
                let base = self.get(self.base);
                self.tab_evals += self.count[self.base as usize];
                let mut y: Vec<(u64, u64)> = vec![];
                Self::for_chunks(&base, |xs| {
                    pool.eval_vec(c, &order, xv, xs, &mut bufs);
                    let out = &bufs[&c];
                    for (i, &x) in xs.iter().enumerate() {
                        if out[i] != 0 {
                            push(&mut y, x)
                        }
                    }
                    true
                });
                self.base_cache.insert(c, Rc::new(y));
            }
            let y = self.base_cache[&c].clone();
            let (a, b) = split_ranges(&ranges, &y);
            yes = a;
            no = b;
        } else {
            self.tab_evals += self.count[dom as usize];
            Self::for_chunks(&ranges, |xs| {
                pool.eval_vec(c, &order, xv, xs, &mut bufs);
                let out = &bufs[&c];
                for (i, &x) in xs.iter().enumerate() {
                    if out[i] != 0 {
                        push(&mut yes, x)
                    } else {
                        push(&mut no, x)
                    }
                }
                true
            });
        }
        let r = (self.intern(yes), self.intern(no));
        self.filter_cache.insert((c, dom), r);
        r
    }
    /// the function computed by unary term t on dom as pieces (None if more than `cap`)
    pub fn tabulate(&mut self, pool: &mut Pool, t: u32, dom: u32) -> Option<Rc<Vec<Piece>>> {
        const CAP: usize = 40000;
        let c = pool.canon(t);
        if let Some(r) = self.tab_cache.get(&(c, dom)) {
            return r.clone();
        }
        let order = pool.topo(c, None);
        let xv = *order.iter().find(|&&u| pool.node(u).op == Op::Var).unwrap();
        let w = pool.node(c).w;
        let m = mask(w);
        let mut bufs = HashMap::new();
        let ranges = self.get(dom);
        let mut out: Vec<Piece> = vec![];
        // current run
        let mut cur: Option<(u64, u64, u64, bool, bool)> = None; // lo, hi, val at lo, const ok, lin ok
        let mut over = false;
        self.tab_evals += self.count[dom as usize];
        let flush = |cur: &Option<(u64, u64, u64, bool, bool)>, out: &mut Vec<Piece>| {
            if let Some((lo, hi, v, kok, _)) = *cur {
                if kok {
                    out.push(Piece {
                        lo,
                        hi,
                        konst: true,
                        val: v,
                    });
                } else {
                    out.push(Piece {
                        lo,
                        hi,
                        konst: false,
                        val: v.wrapping_sub(lo) & m,
                    });
                }
            }
        };
        Self::for_chunks(&ranges, |xs| {
            pool.eval_vec(c, &order, xv, xs, &mut bufs);
            let vals = &bufs[&c];
            for (i, &x) in xs.iter().enumerate() {
                let v = vals[i];
                match &mut cur {
                    None => cur = Some((x, x, v, true, true)),
                    Some((lo, hi, v0, kok, lok)) => {
                        let k2 = *kok && v == *v0;
                        let l2 = *lok && v == (v0.wrapping_add(x - *lo) & m);
                        // a linear run only if it has started or is contiguous
                        if k2 || l2 {
                            *hi = x;
                            *kok = k2;
                            *lok = l2;
                        } else {
                            flush(&cur, &mut out);
                            cur = Some((x, x, v, true, true));
                        }
                    }
                }
            }
            if out.len() > CAP {
                over = true;
                return false;
            }
            true
        });
        flush(&cur, &mut out);
        let r = if over { None } else { Some(Rc::new(out)) };
        self.tab_cache.insert((c, dom), r.clone());
        r
    }
}

impl Pool {
    /// evaluate several roots over columns of variable values
    pub fn eval_many(&self, roots: &[u32], order: &[u32], cols: &HashMap<u32, Vec<u64>>, n: usize, bufs: &mut HashMap<u32, Vec<u64>>) {
        let _ = roots;
        for &t in order {
            let mut out = bufs.remove(&t).unwrap_or_default();
            out.clear();
            let nd = &self.nodes[t as usize];
            if nd.op == Op::Var {
                out.extend_from_slice(&cols[&nd.aux]);
                bufs.insert(t, out);
                continue;
            }
            self.eval_node(nd, n, bufs, &mut out);
            bufs.insert(t, out);
        }
    }
    pub fn topo_many(&self, roots: &[u32]) -> Vec<u32> {
        let mut out = vec![];
        let mut seen = std::collections::HashSet::new();
        for &r in roots {
            let mut st = vec![(r, false)];
            while let Some((t, done)) = st.pop() {
                if done {
                    out.push(t);
                    continue;
                }
                if !seen.insert(t) {
                    continue;
                }
                st.push((t, true));
                let n = &self.nodes[t as usize];
                for s in [n.a, n.b, n.c] {
                    if let S::T(u) = s {
                        if !seen.contains(&u) {
                            st.push((u, false));
                        }
                    }
                }
            }
        }
        out
    }
    pub fn vars_of(&self, s: S) -> Vec<u32> {
        let m = self.supp(s);
        (0..64).filter(|i| m >> i & 1 == 1).collect()
    }
}

fn un_loop(a: Option<&Vec<u64>>, ka: u64, n: usize, out: &mut Vec<u64>, f: impl Fn(u64) -> u64) {
    match a {
        Some(v) => out.extend(v[..n].iter().map(|&x| f(x))),
        None => {
            let r = f(ka);
            out.extend((0..n).map(|_| r));
        }
    }
}
fn bin_loop(
    a: Option<&Vec<u64>>,
    ka: u64,
    b: Option<&Vec<u64>>,
    kb: u64,
    n: usize,
    out: &mut Vec<u64>,
    f: impl Fn(u64, u64) -> u64,
) {
    match (a, b) {
        (Some(x), Some(y)) => out.extend(x[..n].iter().zip(y[..n].iter()).map(|(&p, &q)| f(p, q))),
        (Some(x), None) => out.extend(x[..n].iter().map(|&p| f(p, kb))),
        (None, Some(y)) => out.extend(y[..n].iter().map(|&q| f(ka, q))),
        (None, None) => {
            let r = f(ka, kb);
            out.extend((0..n).map(|_| r));
        }
    }
}
impl Pool {
    fn eval_node(&self, nd: &Node, n: usize, bufs: &HashMap<u32, Vec<u64>>, out: &mut Vec<u64>) {
        let fetch = |s: S| -> (Option<&Vec<u64>>, u64) {
            match s {
                S::K(k) => (None, k),
                S::T(u) => (bufs.get(&u), 0),
            }
        };
        let (va, ka) = fetch(nd.a);
        let (vb, kb) = fetch(nd.b);
        let (vc, kc) = fetch(nd.c);
        let m = mask(nd.w);
        let (w, aw) = (nd.w, nd.aw);
        match nd.op {
            Op::Var => unreachable!(),
            Op::Ite => {
                for i in 0..n {
                    let c = va.map(|v| v[i]).unwrap_or(ka);
                    out.push(if c != 0 {
                        vb.map(|v| v[i]).unwrap_or(kb)
                    } else {
                        vc.map(|v| v[i]).unwrap_or(kc)
                    });
                }
            }
            Op::Sel => {
                let b = &self.consts[&nd.aux];
                let k = (nd.w / 8) as usize;
                un_loop(va, ka, n, out, |x| read_bytes(b, x, k));
            }
            Op::Tab => {
                let t = &self.tables[nd.aux as usize];
                un_loop(va, ka, n, out, |x| t.get(x));
            }
            Op::Mem => {
                let s = &self.sets[nd.aux as usize];
                un_loop(va, ka, n, out, |x| s.binary_search(&x).is_ok() as u64);
            }
            Op::Pair => {
                let p = &self.pairs[nd.aux as usize];
                bin_loop(va, ka, vb, kb, n, out, |x, y| *p.map.get(&(x, y)).unwrap_or(&p.default));
            }
            Op::ZExt => un_loop(va, ka, n, out, |x| x),
            Op::Trunc => un_loop(va, ka, n, out, |x| x & m),
            Op::SExt => un_loop(va, ka, n, out, |x| (sx(x, aw) as u64) & m),
            Op::Add => bin_loop(va, ka, vb, kb, n, out, |x, y| x.wrapping_add(y) & m),
            Op::Sub => bin_loop(va, ka, vb, kb, n, out, |x, y| x.wrapping_sub(y) & m),
            Op::Mul => bin_loop(va, ka, vb, kb, n, out, |x, y| x.wrapping_mul(y) & m),
            Op::And => bin_loop(va, ka, vb, kb, n, out, |x, y| x & y),
            Op::Or => bin_loop(va, ka, vb, kb, n, out, |x, y| x | y),
            Op::Xor => bin_loop(va, ka, vb, kb, n, out, |x, y| x ^ y),
            Op::Eq => bin_loop(va, ka, vb, kb, n, out, |x, y| (x == y) as u64),
            Op::Ult => bin_loop(va, ka, vb, kb, n, out, |x, y| (x < y) as u64),
            Op::Ule => bin_loop(va, ka, vb, kb, n, out, |x, y| (x <= y) as u64),
            op => bin_loop(va, ka, vb, kb, n, out, |x, y| apply_op(op, w, aw, x, y)),
        }
    }
}

/// (r ∩ y, r \ y) for sorted disjoint ranges
pub fn split_ranges(r: &[(u64, u64)], y: &[(u64, u64)]) -> (Vec<(u64, u64)>, Vec<(u64, u64)>) {
    let (mut yes, mut no) = (vec![], vec![]);
    let mut push = |v: &mut Vec<(u64, u64)>, a: u64, b: u64| {
        if let Some(l) = v.last_mut() {
            let l: &mut (u64, u64) = l;
            if l.1 + 1 == a {
                l.1 = b;
                return;
            }
        }
        v.push((a, b));
    };
    let mut j = 0;
    for &(a, b) in r {
        let mut cur = a;
        while j < y.len() && y[j].1 < a {
            j += 1;
        }
        let mut k = j;
        while k < y.len() && y[k].0 <= b {
            let lo = y[k].0.max(a);
            let hi = y[k].1.min(b);
            if cur < lo {
                push(&mut no, cur, lo - 1);
            }
            push(&mut yes, lo, hi);
            cur = hi + 1;
            k += 1;
        }
        if cur <= b {
            push(&mut no, cur, b);
        }
    }
    (yes, no)
}
