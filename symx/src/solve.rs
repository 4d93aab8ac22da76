//! Path conditions: per-variable domains, small explicit relations, residual constraints,
//! and the decision procedure for branch conditions (domain filtering, cached models, Z3).
use crate::term::*;
use crate::z3::{Ast, Res, Z3};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub struct RelD {
    pub vars: Vec<u32>,
    pub n: usize,
    pub cols: HashMap<u32, Vec<u64>>,
    pub mask: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Unit {
    Var(u32, u32),
    Rel(u32),
}

#[derive(Clone, Default)]
pub struct PathCond {
    pub dom: Vec<u32>,
    pub declared: u64,
    pub single: u64,
    pub cons: Vec<u32>,
    pub rels: Vec<u32>,
    pub model: Vec<u64>,
}

pub enum Dec {
    T,
    F,
    /// both feasible; the second component is a model for the side the current model does not satisfy
    Both(Option<Vec<(u32, u64)>>),
    Unknown,
}

pub struct Classes {
    pub reps: Vec<u32>, // index of a row / value
    pub vals: Vec<u64>, // representative values (var units)
    pub tuples: Vec<Vec<u64>>,
}

#[derive(Default, Clone)]
pub struct SStats {
    pub decided_filter: u64,
    pub decided_model: u64,
    pub decided_solver: u64,
    pub cache_hits: u64,
    pub shared_hits: u64,
    pub confirms: u64,
    pub confirm_skipped: u64,
    pub splits: u64,
    pub split_confirms: u64,
    pub split_skipped: u64,
    pub confirm_cached: u64,
    pub unknown: u64,
    pub decided_product: u64,
    pub rels_made: u64,
}

pub struct Ctx {
    pub pool: Pool,
    pub doms: Doms,
    pub z3: Z3,
    rels: Vec<Rc<RelD>>,
    rel_map: HashMap<(Vec<u32>, Vec<u64>), u32>,
    rel_filter: HashMap<(u32, u32), (u32, u32)>,
    subst_cache: HashMap<(u32, Vec<(u32, u64)>), S>,
    norm_cache: HashMap<u32, S>,
    /// value of a term over one unit if it is the same on the whole unit
    const_cache: HashMap<(u32, u32), Option<u64>>,
    class_cache: HashMap<(u32, Vec<u32>), Option<Rc<Classes>>>,
    /// verdicts by canonical key; models over the canonical variables
    qcache: HashMap<u128, (Res, Option<Vec<(u32, u64)>>)>,
    confirm_cache: HashSet<u128>,
    confirm_weak: HashSet<u128>,
    splits: HashSet<(u32, u32)>,
    pub do_confirm: bool,
    /// conditions on which the solver gave up
    hard: HashSet<u32>,
    key_cache: HashMap<(Vec<u32>, Vec<(u32, u32)>), (u128, Rc<Vec<u32>>)>,
    pub shared: Option<crate::shm::Shared>,
    mem_pairs: HashMap<(u32, u64), u32>,
    pub var_nodes: Vec<Option<S>>,
    pub stats: SStats,
    pub rlimit: u32,
    z3_gen: u64,
    /// possible values of the terms encoded over classes (current query)
    poss: HashMap<u32, HashSet<u64>>,
    pub dump: Option<String>,
    seed: u64,
}

const CLASS_CAP: usize = 3000;
const ROW_CAP: usize = 300_000;

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            pool: Pool::new(),
            doms: Doms::new(),
            z3: Z3::new(),
            rels: vec![],
            rel_map: HashMap::new(),
            rel_filter: HashMap::new(),
            subst_cache: HashMap::new(),
            norm_cache: HashMap::new(),
            const_cache: HashMap::new(),
            class_cache: HashMap::new(),
            qcache: HashMap::new(),
            confirm_cache: HashSet::new(),
            confirm_weak: HashSet::new(),
            splits: HashSet::new(),
            do_confirm: true,
            hard: HashSet::new(),
            key_cache: HashMap::new(),
            shared: None,
            mem_pairs: HashMap::new(),
            var_nodes: vec![None; 64],
            stats: SStats::default(),
            rlimit: 400_000_000,
            z3_gen: 0,
            poss: HashMap::new(),
            dump: None,
            seed: 1,
        }
    }
    pub fn rel(&self, r: u32) -> Rc<RelD> {
        self.rels[r as usize].clone()
    }
    pub fn intern_rel(&mut self, vars: Vec<u32>, rows: Vec<u64>) -> u32 {
        if let Some(&r) = self.rel_map.get(&(vars.clone(), rows.clone())) {
            return r;
        }
        let k = vars.len();
        let n = if k == 0 { 0 } else { rows.len() / k };
        let mut cols = HashMap::new();
        for (j, v) in vars.iter().enumerate() {
            cols.insert(*v, (0..n).map(|i| rows[i * k + j]).collect::<Vec<u64>>());
        }
        let id = self.rels.len() as u32;
        let mask = vars.iter().fold(0, |m, v| m | 1u64 << v);
        self.rels.push(Rc::new(RelD {
            vars: vars.clone(),
            n,
            cols,
            mask,
        }));
        self.rel_map.insert((vars, rows), id);
        id
    }
    pub fn declare(&mut self, pc: &mut PathCond, v: u32, w: u8, ranges: Vec<(u64, u64)>) -> S {
        if pc.declared >> v & 1 == 1 {
            return self.var_nodes[v as usize].unwrap();
        }
        let lo = ranges[0].0;
        let hi = ranges[ranges.len() - 1].1;
        let node = match self.var_nodes[v as usize] {
            Some(n) => n,
            None => {
                let n = self.pool.var(v, w, lo, hi);
                self.var_nodes[v as usize] = Some(n);
                n
            }
        };
        let d = self.doms.intern(ranges);
        while pc.dom.len() <= v as usize {
            pc.dom.push(0);
            pc.model.push(0);
        }
        pc.dom[v as usize] = d;
        pc.model[v as usize] = lo;
        pc.declared |= 1 << v;
        if self.doms.single(d).is_some() {
            pc.single |= 1 << v;
        }
        node
    }
    pub fn simp(&mut self, pc: &PathCond, s: S) -> S {
        let t = match s {
            S::K(_) => return s,
            S::T(t) => t,
        };
        let supp = self.pool.info[t as usize].supp;
        let m = supp & pc.single;
        if m == 0 {
            return s;
        }
        if m == supp {
            return S::K(self.pool.eval(s, &pc.model));
        }
        let asg: Vec<(u32, u64)> = (0..64).filter(|i| m >> i & 1 == 1).map(|i| (i, pc.model[i as usize])).collect();
        if let Some(&r) = self.subst_cache.get(&(t, asg.clone())) {
            return r;
        }
        let mut memo = HashMap::new();
        let mm = pc.model.clone();
        let r = self.pool.subst(
            s,
            &|v| if m >> v & 1 == 1 { Some(S::K(mm[v as usize])) } else { None },
            m,
            &mut memo,
        );
        self.subst_cache.insert((t, asg), r);
        r
    }
    pub fn units(&self, pc: &PathCond, supp: u64) -> Vec<Unit> {
        let mut out = vec![];
        let mut rest = supp & !pc.single;
        for &r in &pc.rels {
            let m = self.rels[r as usize].mask;
            if rest & m != 0 {
                out.push(Unit::Rel(r));
                rest &= !m;
            }
        }
        let mut i = 0;
        while rest != 0 {
            if rest & 1 == 1 {
                out.push(Unit::Var(i, pc.dom[i as usize]));
            }
            rest >>= 1;
            i += 1;
        }
        out
    }
    fn unit_mask(&self, u: Unit) -> u64 {
        match u {
            Unit::Var(v, _) => 1 << v,
            Unit::Rel(r) => self.rels[r as usize].mask,
        }
    }
    fn filter_rel(&mut self, r: u32, t: u32) -> (u32, u32) {
        if let Some(&x) = self.rel_filter.get(&(r, t)) {
            return x;
        }
        let rd = self.rel(r);
        let order = self.pool.topo(t, None);
        let mut bufs = HashMap::new();
        self.pool.eval_many(&[t], &order, &rd.cols, rd.n, &mut bufs);
        let res = &bufs[&t];
        let (mut y, mut n) = (vec![], vec![]);
        for i in 0..rd.n {
            let dst = if res[i] != 0 { &mut y } else { &mut n };
            for v in &rd.vars {
                dst.push(rd.cols[v][i]);
            }
        }
        let vars = rd.vars.clone();
        let a = self.intern_rel(vars.clone(), y);
        let b = self.intern_rel(vars, n);
        self.rel_filter.insert((r, t), (a, b));
        (a, b)
    }
    fn linked(&self, pc: &PathCond, m: u64) -> bool {
        pc.cons.iter().any(|&c| self.pool.info[c as usize].supp & !pc.single & m != 0)
    }
    /// minimum and maximum of a term under the domains (exact for one unit), None otherwise
    pub fn bounds(&mut self, pc: &PathCond, s: S) -> (u64, u64) {
        let s = self.simp(pc, s);
        let t = match s {
            S::K(k) => return (k, k),
            S::T(t) => t,
        };
        let us = self.units(pc, self.pool.supp(s));
        if us.len() == 1 {
            match us[0] {
                Unit::Var(_, d) => {
                    if let Some(p) = self.doms.tabulate(&mut self.pool, t, d) {
                        let m = mask(self.pool.node(t).w);
                        let (mut lo, mut hi) = (u64::MAX, 0);
                        for x in p.iter() {
                            if x.konst {
                                lo = lo.min(x.val);
                                hi = hi.max(x.val);
                            } else {
                                let a = x.lo.wrapping_add(x.val) & m;
                                let b = x.hi.wrapping_add(x.val) & m;
                                if a > b {
                                    return self.pool.range(s);
                                }
                                lo = lo.min(a);
                                hi = hi.max(b);
                            }
                        }
                        return (lo, hi);
                    }
                }
                Unit::Rel(r) => {
                    let rd = self.rel(r);
                    let order = self.pool.topo(t, None);
                    let mut bufs = HashMap::new();
                    self.pool.eval_many(&[t], &order, &rd.cols, rd.n, &mut bufs);
                    let v = &bufs[&t];
                    return (*v.iter().min().unwrap(), *v.iter().max().unwrap());
                }
            }
        }
        self.pool.range(s)
    }

    // ------------------------------------------------------------ decide / assume
    pub fn decide(&mut self, pc: &PathCond, s: S) -> Dec {
        let s = self.fold(pc, s);
        let s = self.mask_keys(pc, s);
        let t = match s {
            S::K(k) => return if k != 0 { Dec::T } else { Dec::F },
            S::T(t) => t,
        };
        if pc.cons.contains(&t) {
            return Dec::T;
        }
        let ns = self.pool.not(s);
        if let S::T(nt) = ns {
            if pc.cons.contains(&nt) {
                return Dec::F;
            }
        }
        let us = self.units(pc, self.pool.supp(s));
        if us.len() == 1 {
            let u = us[0];
            let (y, n) = match u {
                Unit::Var(_, d) => {
                    let (a, b) = self.filter_dom(t, d);
                    (self.doms.count[a as usize] > 0, self.doms.count[b as usize] > 0)
                }
                Unit::Rel(r) => {
                    let (a, b) = self.filter_rel(r, t);
                    (self.rels[a as usize].n > 0, self.rels[b as usize].n > 0)
                }
            };
            if !y {
                self.stats.decided_filter += 1;
                return Dec::F;
            }
            if !n {
                self.stats.decided_filter += 1;
                return Dec::T;
            }
            let m = self.unit_mask(u);
            if !self.linked(pc, m) {
                self.stats.decided_filter += 1;
                // a model for the other side
                let cur = self.pool.eval(s, &pc.model) != 0;
                let asg = match u {
                    Unit::Var(v, d) => {
                        let (a, b) = self.filter_dom(t, d);
                        vec![(v, self.doms.first(if cur { b } else { a }))]
                    }
                    Unit::Rel(r) => {
                        let (a, b) = self.filter_rel(r, t);
                        let rd = self.rel(if cur { b } else { a });
                        rd.vars.iter().map(|v| (*v, rd.cols[v][0])).collect()
                    }
                };
                return Dec::Both(Some(asg));
            }
        } else {
            // conjunctions and disjunctions of parts decided separately
            let n = *self.pool.node(t);
            if n.w == 1 && (n.op == Op::And || n.op == Op::Or) {
                let a = self.decide_quick(pc, n.a);
                let b = self.decide_quick(pc, n.b);
                match (n.op, a, b) {
                    (Op::And, Some(false), _) | (Op::And, _, Some(false)) => return Dec::F,
                    (Op::And, Some(true), Some(true)) => return Dec::T,
                    (Op::Or, Some(true), _) | (Op::Or, _, Some(true)) => return Dec::T,
                    (Op::Or, Some(false), Some(false)) => return Dec::F,
                    (Op::And, Some(true), None) | (Op::Or, Some(false), None) => return self.decide(pc, n.b),
                    (Op::And, None, Some(true)) | (Op::Or, None, Some(false)) => return self.decide(pc, n.a),
                    _ => {}
                }
            }
            if n.op == Op::Xor && n.w == 1 && n.b == S::K(1) {
                return match self.decide(pc, n.a) {
                    Dec::T => Dec::F,
                    Dec::F => Dec::T,
                    d => d,
                };
            }
        }
        let cur = self.pool.eval(s, &pc.model) != 0;
        let other = if cur { ns } else { s };
        let ot = match other {
            S::T(t) => t,
            S::K(_) => unreachable!(),
        };
        if let Some(m) = self.probe(pc, ot, &us) {
            self.stats.decided_model += 1;
            return Dec::Both(Some(m));
        }
        let (r, m) = self.query(pc, ot);
        match r {
            Res::Unsat => {
                if cur {
                    Dec::T
                } else {
                    Dec::F
                }
            }
            Res::Sat => Dec::Both(m),
            Res::Unknown => {
                if std::env::var("SYMX_REL").is_ok() {
                    let (l, us) = self.component(pc, &[ot]);
                    eprintln!("PRODUCT us={:?} counts={:?}", us, us.iter().map(|u| match u { Unit::Var(_, d) => self.doms.count[*d as usize], Unit::Rel(r) => self.rels[*r as usize].n as u64 }).collect::<Vec<_>>());
                    for t in l {
                        eprintln!("  {}", self.pool.show(S::T(t)));
                    }
                }
                if let Some(r) = self.product(pc, ot) {
                    self.stats.decided_product += 1;
                    self.hard.insert(ot);
                    if let S::T(t) = if cur { s } else { ns } {
                        self.hard.insert(t);
                    }
                    return match r {
                        Some(m) => Dec::Both(Some(m)),
                        None if cur => Dec::T,
                        None => Dec::F,
                    };
                }
                self.stats.unknown += 1;
                if std::env::var("SYMX_DEBUG").is_ok() {
                    let (l, us) = self.component(pc, &[ot]);
                    eprintln!("UNKNOWN us={:?}", us);
                    for t in l {
                        eprintln!("  {}", self.pool.show(S::T(t)));
                    }
                    for u in us {
                        match u {
                            Unit::Var(v, d) => eprintln!("  var {} ranges {} count {}", v, self.doms.get(d).len(), self.doms.count[d as usize]),
                            Unit::Rel(r) => eprintln!("  rel {:?} rows {}", self.rels[r as usize].vars, self.rels[r as usize].n),
                        }
                    }
                }
                Dec::Unknown
            }
        }
    }
    /// the values of the units side by side, when there are at most cap combinations
    fn parts(&self, us: &[Unit], cap: u64) -> Option<(u64, Vec<(Vec<u32>, Vec<Vec<u64>>)>)> {
        let mut total: u64 = 1;
        let mut parts = vec![];
        for u in us {
            let n = match u {
                Unit::Var(_, d) => self.doms.count[*d as usize],
                Unit::Rel(r) => self.rels[*r as usize].n as u64,
            };
            total = total.checked_mul(n)?;
            if total > cap {
                return None;
            }
            match u {
                Unit::Var(v, d) => {
                    let mut xs = vec![];
                    for (lo, hi) in self.doms.get(*d).iter() {
                        xs.extend(*lo..=*hi);
                    }
                    parts.push((vec![*v], vec![xs]));
                }
                Unit::Rel(r) => {
                    let rd = self.rel(*r);
                    parts.push((rd.vars.clone(), rd.vars.iter().map(|v| rd.cols[v].clone()).collect()));
                }
            }
        }
        Some((total, parts))
    }
    /// evaluate the terms over all combinations; f gets the columns of each block
    fn each_block(
        &self,
        terms: &[u32],
        total: u64,
        parts: &[(Vec<u32>, Vec<Vec<u64>>)],
        mut f: impl FnMut(&HashMap<u32, Vec<u64>>, &HashMap<u32, Vec<u64>>, usize) -> bool,
    ) {
        let order = self.pool.topo_many(terms);
        let mut bufs = HashMap::new();
        let step = 1 << 14;
        let mut at = 0;
        while at < total {
            let n = (total - at).min(step) as usize;
            let mut cols: HashMap<u32, Vec<u64>> = HashMap::new();
            let mut div = 1;
            for (vs, cs) in parts {
                let len = cs[0].len() as u64;
                for (v, c) in vs.iter().zip(cs) {
                    cols.insert(*v, (0..n as u64).map(|i| c[((at + i) / div % len) as usize]).collect());
                }
                div *= len;
            }
            self.pool.eval_many(terms, &order, &cols, n, &mut bufs);
            if !f(&cols, &bufs, n) {
                return;
            }
            at += n as u64;
        }
    }
    /// the combinations of the values of the units for which t holds
    fn rows_of(&mut self, t: u32, us: &[Unit]) -> Option<Vec<Vec<(u32, u64)>>> {
        let (total, parts) = self.parts(us, ROW_CAP as u64)?;
        let mut out = vec![];
        self.each_block(&[t], total, &parts, |cols, bufs, n| {
            for i in 0..n {
                if bufs[&t][i] != 0 {
                    out.push(cols.iter().map(|(v, c)| (*v, c[i])).collect());
                }
            }
            true
        });
        Some(out)
    }
    /// exhaustive evaluation of t and the constraints connected to it when there are few enough
    /// combinations of the values left (used where the solver gave no answer within its limit)
    fn product(&mut self, pc: &PathCond, t: u32) -> Option<Option<Vec<(u32, u64)>>> {
        let (l, us) = self.component(pc, &[t]);
        let mut terms: Vec<u32> = vec![];
        for &c in &l {
            match self.simp(pc, S::T(c)) {
                S::T(t) => terms.push(t),
                S::K(0) => return Some(None),
                S::K(_) => {}
            }
        }
        // values of a unit on which all the terms agree are represented by one of them
        let masks: Vec<u64> = us.iter().map(|&u| self.unit_mask(u)).collect();
        let mut lists = vec![vec![]; us.len()];
        let mut seen = HashSet::new();
        for &g in &terms {
            self.unit_terms(S::T(g), &masks, pc.single, &mut lists, &mut seen);
        }
        let mut total: u64 = 1;
        let mut parts = vec![];
        for (i, &u) in us.iter().enumerate() {
            let (n, p) = match self.classes(u, &lists[i]) {
                Some(c) => match u {
                    Unit::Var(v, _) => (c.vals.len() as u64, vec![(vec![v], vec![c.vals.clone()])]),
                    Unit::Rel(r) => {
                        let rd = self.rel(r);
                        let cols = rd
                            .vars
                            .iter()
                            .map(|v| c.reps.iter().map(|&x| rd.cols[v][x as usize]).collect())
                            .collect();
                        (c.reps.len() as u64, vec![(rd.vars.clone(), cols)])
                    }
                },
                None => self.parts(&[u], 3_000_000)?,
            };
            total = total.checked_mul(n)?;
            if total > 3_000_000 {
                return None;
            }
            parts.extend(p);
        }
        let mut found = None;
        self.each_block(&terms, total, &parts, |cols, bufs, n| {
            for i in 0..n {
                if terms.iter().all(|t| bufs[t][i] != 0) {
                    found = Some(cols.iter().map(|(v, c)| (*v, c[i])).collect());
                    return false;
                }
            }
            true
        });
        Some(found)
    }
    fn rnd(&mut self) -> u64 {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.seed >> 33
    }
    /// look for a model of the path condition and t near the current model
    fn probe(&mut self, pc: &PathCond, t: u32, us: &[Unit]) -> Option<Vec<(u32, u64)>> {
        let (l, all) = self.component(pc, &[t]);
        let cons: Vec<S> = l.iter().map(|&c| self.simp(pc, S::T(c))).collect();
        let mut model = pc.model.clone();
        // where the values come from: the part of the unit that satisfies t, if t has one unit
        let mut from: Vec<Unit> = us.to_vec();
        if us.len() == 1 {
            from[0] = match us[0] {
                Unit::Var(v, d) => Unit::Var(v, self.filter_dom(t, d).0),
                Unit::Rel(r) => Unit::Rel(self.filter_rel(r, t).0),
            };
        }
        let rest: Vec<Unit> = all.iter().copied().filter(|u| !us.contains(u)).collect();
        for round in 0..60u32 {
            model.copy_from_slice(&pc.model);
            let mut pick: Vec<Unit> = vec![];
            if round < 24 && us.len() > 1 && round % 2 == 0 {
                pick.push(from[(round as usize / 2) % from.len()]);
            } else {
                pick.extend(from.iter());
            }
            if round >= 24 {
                for &u in &rest {
                    if round % 3 == 0 || self.rnd() & 1 == 0 {
                        pick.push(u);
                    }
                }
            }
            for u in pick {
                match u {
                    Unit::Var(v, d) => {
                        let r = self.doms.get(d);
                        if r.is_empty() {
                            return None;
                        }
                        let (a, b) = r[self.rnd() as usize % r.len()];
                        let k = self.rnd();
                        model[v as usize] = if k & 3 == 0 { a } else { a + (k >> 2) % (b - a + 1) };
                    }
                    Unit::Rel(r) => {
                        let rd = self.rel(r);
                        if rd.n == 0 {
                            return None;
                        }
                        let i = self.rnd() as usize % rd.n;
                        for v in &rd.vars {
                            model[*v as usize] = rd.cols[v][i];
                        }
                    }
                }
            }
            let mut ok = true;
            for &c in &cons {
                if self.pool.eval(c, &model) == 0 {
                    ok = false;
                    break;
                }
            }
            if ok {
                let mut out = vec![];
                for i in 0..model.len() {
                    if model[i] != pc.model[i] {
                        out.push((i as u32, model[i]));
                    }
                }
                return Some(out);
            }
        }
        None
    }
    /// cheap decision without the solver
    fn decide_quick(&mut self, pc: &PathCond, s: S) -> Option<bool> {
        let s = self.simp(pc, s);
        let t = match s {
            S::K(k) => return Some(k != 0),
            S::T(t) => t,
        };
        if pc.cons.contains(&t) {
            return Some(true);
        }
        if let S::T(nt) = self.pool.not(s) {
            if pc.cons.contains(&nt) {
                return Some(false);
            }
        }
        let us = self.units(pc, self.pool.supp(s));
        if us.len() == 1 {
            let (y, n) = match us[0] {
                Unit::Var(_, d) => {
                    let (a, b) = self.filter_dom(t, d);
                    (self.doms.count[a as usize] > 0, self.doms.count[b as usize] > 0)
                }
                Unit::Rel(r) => {
                    let (a, b) = self.filter_rel(r, t);
                    (self.rels[a as usize].n > 0, self.rels[b as usize].n > 0)
                }
            };
            return match (y, n) {
                (true, false) => Some(true),
                (false, true) => Some(false),
                _ => None,
            };
        }
        let n = *self.pool.node(t);
        if n.w == 1 && (n.op == Op::And || n.op == Op::Or) {
            let a = self.decide_quick(pc, n.a);
            let b = self.decide_quick(pc, n.b);
            return match (n.op, a, b) {
                (Op::And, Some(false), _) | (Op::And, _, Some(false)) => Some(false),
                (Op::And, Some(true), Some(true)) => Some(true),
                (Op::Or, Some(true), _) | (Op::Or, _, Some(true)) => Some(true),
                (Op::Or, Some(false), Some(false)) => Some(false),
                _ => None,
            };
        }
        if n.op == Op::Xor && n.w == 1 && n.b == S::K(1) {
            return self.decide_quick(pc, n.a).map(|b| !b);
        }
        None
    }
    pub fn set_model(&self, pc: &mut PathCond, asg: &[(u32, u64)]) {
        for &(v, x) in asg {
            pc.model[v as usize] = x;
        }
    }
    fn set_dom(&mut self, pc: &mut PathCond, v: u32, d: u32) -> bool {
        if pc.dom[v as usize] == d {
            return false;
        }
        pc.dom[v as usize] = d;
        if let Some(x) = self.doms.single(d) {
            pc.single |= 1 << v;
            pc.model[v as usize] = x;
        }
        true
    }
    fn set_rel(&mut self, pc: &mut PathCond, old: &[u32], new: u32) {
        pc.rels.retain(|r| !old.contains(r));
        let rd = self.rel(new);
        for &v in &rd.vars {
            let mut xs = rd.cols[&v].clone();
            xs.sort_unstable();
            xs.dedup();
            let mut rs: Vec<(u64, u64)> = vec![];
            for x in xs {
                match rs.last_mut() {
                    Some(l) if l.1 + 1 == x => l.1 = x,
                    _ => rs.push((x, x)),
                }
            }
            let d = self.doms.intern(rs);
            self.set_dom(pc, v, d);
        }
        if rd.n > 1 {
            // drop singleton variables from the relation
            let keep: Vec<u32> = rd.vars.iter().copied().filter(|v| pc.single >> v & 1 == 0).collect();
            if keep.len() == rd.vars.len() {
                pc.rels.push(new);
            } else if keep.len() >= 2 {
                let mut rows = vec![];
                for i in 0..rd.n {
                    for v in &keep {
                        rows.push(rd.cols[v][i]);
                    }
                }
                let r = self.intern_rel(keep, rows);
                pc.rels.push(r);
            }
            // one variable left: its domain is the projection, exact
        }
    }
    /// the current model must already satisfy s == val
    pub fn assume(&mut self, pc: &mut PathCond, s: S, val: bool) {
        self.assume1(pc, s, val);
        self.settle(pc);
    }
    fn assume1(&mut self, pc: &mut PathCond, s: S, val: bool) {
        let s = self.fold(pc, s);
        let s = self.mask_keys(pc, s);
        let s = if val { s } else { self.pool.not(s) };
        let t = match s {
            S::K(k) => {
                assert!(k != 0, "assumed a false condition");
                return;
            }
            S::T(t) => t,
        };
        let n = *self.pool.node(t);
        let us = self.units(pc, self.pool.supp(s));
        if us.len() == 1 {
            match us[0] {
                Unit::Var(v, d) => {
                    let (y, _) = self.filter_dom(t, d);
                    assert!(y != EMPTY, "empty domain");
                    self.set_dom(pc, v, y);
                }
                Unit::Rel(r) => {
                    let (y, _) = self.filter_rel(r, t);
                    assert!(self.rels[y as usize].n > 0, "empty relation");
                    self.set_rel(pc, &[r], y);
                }
            }
            return;
        }
        if n.w == 1 && n.op == Op::And {
            self.assume1(pc, n.a, true);
            self.assume1(pc, n.b, true);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && n.b == S::K(1) {
            if let S::T(u) = n.a {
                let k = *self.pool.node(u);
                if k.w == 1 && k.op == Op::Or {
                    self.assume1(pc, k.a, false);
                    self.assume1(pc, k.b, false);
                    return;
                }
            }
        }
        if self.try_relation(pc, t, &us) {
            return;
        }
        if std::env::var("SYMX_REL").is_ok() {
            eprintln!("NOREL us={:?} {}", us, self.pool.show(S::T(t)));
        }
        if !pc.cons.contains(&t) {
            pc.cons.push(t);
        }
    }
    /// absorb constraints that now concern one unit only
    fn settle(&mut self, pc: &mut PathCond) {
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < pc.cons.len() {
                let c = pc.cons[i];
                let s = self.fold(pc, S::T(c));
                match s {
                    S::K(k) => {
                        assert!(k != 0, "contradiction");
                        pc.cons.remove(i);
                        changed = true;
                        continue;
                    }
                    S::T(t) => {
                        let us = self.units(pc, self.pool.supp(s));
                        if us.len() <= 1 {
                            pc.cons.remove(i);
                            self.assume1(pc, s, true);
                            changed = true;
                            continue;
                        }
                        if t != c {
                            pc.cons[i] = t;
                        }
                    }
                }
                i += 1;
            }
            if !changed {
                return;
            }
        }
    }
    /// t: Mem(p, S) true or Pair != default over several units: enumerate the solutions as rows
    fn try_relation(&mut self, pc: &mut PathCond, t: u32, us: &[Unit]) -> bool {
        let n = *self.pool.node(t);
        let sols = if n.op == Op::Mem {
            let set = self.pool.sets[n.aux as usize].clone();
            self.preimage(pc, n.a, n.aw, &set)
        } else if let Some((a, b, id, _)) = self.pair_nonzero(t) {
            let p = &self.pool.pairs[id as usize];
            let d = p.default;
            let mut keys: Vec<(u64, u64)> = p.map.iter().filter(|(_, v)| **v != d).map(|(k, _)| *k).collect();
            keys.sort_unstable();
            self.pre_pairs(pc, a, b, &keys)
        } else {
            None
        };
        let sols = match sols {
            Some(s) => s,
            None => {
                let keyed = n.op == Op::Mem || self.pair_nonzero(t).is_some();
                if !keyed && !self.hard.contains(&t) && self.parts(us, 4096).is_none() {
                    return false;
                }
                match self.rows_of(t, us) {
                    Some(s) => s,
                    None => return false,
                }
            }
        };
        // variables involved: all variables of the units
        let mut vars: Vec<u32> = vec![];
        for u in us {
            match u {
                Unit::Var(v, _) => vars.push(*v),
                Unit::Rel(r) => vars.extend(self.rels[*r as usize].vars.iter()),
            }
        }
        vars.sort_unstable();
        vars.dedup();
        let mut rows: Vec<Vec<u64>> = vec![];
        for a in sols {
            let m: HashMap<u32, u64> = a.into_iter().collect();
            if !vars.iter().all(|v| m.contains_key(v)) {
                return false;
            }
            rows.push(vars.iter().map(|v| m[v]).collect());
        }
        rows.sort();
        rows.dedup();
        assert!(!rows.is_empty(), "empty relation created");
        let flat: Vec<u64> = rows.into_iter().flatten().collect();
        let r = self.intern_rel(vars, flat);
        self.stats.rels_made += 1;
        let old: Vec<u32> = us
            .iter()
            .filter_map(|u| if let Unit::Rel(r) = u { Some(*r) } else { None })
            .collect();
        self.set_rel(pc, &old, r);
        true
    }
    /// not(eq(Pair(a,b), default))
    fn pair_nonzero(&self, t: u32) -> Option<(S, S, u32, u8)> {
        let n = self.pool.node(t);
        if n.op == Op::Xor && n.w == 1 && n.b == S::K(1) {
            if let S::T(e) = n.a {
                let e = self.pool.node(e);
                if e.op == Op::Eq {
                    if let (S::T(p), S::K(k)) = (e.a, e.b) {
                        let p = self.pool.node(p);
                        if p.op == Op::Pair && self.pool.pairs[p.aux as usize].default == k {
                            return Some((p.a, p.b, p.aux, p.aw));
                        }
                    }
                }
            }
        }
        None
    }
    fn split_key(&mut self, s: S) -> Option<(S, S, u32)> {
        // Or(Shl(a, k), b) or Add with b < 2^k and no overflow of the shift
        if let S::T(t) = s {
            let n = *self.pool.node(t);
            if n.op == Op::Or || n.op == Op::Add {
                for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                    if let S::T(u) = x {
                        let m = *self.pool.node(u);
                        if m.op == Op::Shl {
                            if let S::K(k) = m.b {
                                let (_, ha) = self.pool.range(m.a);
                                let (_, hb) = self.pool.range(y);
                                if k < n.w as u64 && hb < (1u64 << k) {
                                    // bits of a beyond the key width are shifted out
                                    let keep = mask(n.w) >> k;
                                    let a = if ha <= keep {
                                        m.a
                                    } else {
                                        self.pool.bin(Op::And, n.w, m.a, S::K(keep))
                                    };
                                    return Some((a, y, k as u32));
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    }
    /// split a domain by a condition on its variable; the solver confirms each split
    fn filter_dom(&mut self, t: u32, d: u32) -> (u32, u32) {
        let r = self.doms.filter(&mut self.pool, t, d);
        if self.do_confirm {
            let c = self.pool.canon(t);
            self.confirm_split(c, d, Some(r.0), 0);
        }
        r
    }
    /// Z3: no value of d is in y without satisfying c or the other way round
    /// (y None: c has the value k on all of d)
    fn confirm_split(&mut self, c: u32, d: u32, y: Option<u32>, k: u64) {
        if !self.splits.insert((c, d)) {
            return;
        }
        let key = h128(&(self.pool.shash(c), self.doms.hash(d), y.is_some()));
        if self.shared.as_ref().is_some_and(|s| s.get(key).is_some()) {
            return;
        }
        self.stats.splits += 1;
        match self.split_query(c, d, y, k) {
            Res::Unsat => {
                self.stats.split_confirms += 1;
                if let Some(s) = &self.shared {
                    s.put(key, Res::Unsat, &[]);
                }
            }
            Res::Unknown => {
                self.stats.split_skipped += 1;
                if std::env::var("SYMX_SPLIT").is_ok() {
                    eprintln!("SPLIT {} ranges {} {}", y.is_some(), self.doms.get(d).len(), self.pool.show(S::T(c)));
                }
            }
            Res::Sat => panic!("the solver contradicts the domain split"),
        }
    }
    fn split_query(&mut self, c: u32, d: u32, y: Option<u32>, k: u64) -> Res {
        let order = self.pool.topo(c, None);
        let xv = *order.iter().find(|&&u| self.pool.node(u).op == Op::Var).unwrap();
        let vw = self.pool.node(xv).w;
        let rd = self.doms.get(d);
        if rd.len() > 6000 {
            return Res::Unknown;
        }
        let mut enc: HashMap<u32, Ast> = HashMap::new();
        self.poss.clear();
        let zv = self.z3.var("x", vw as u32);
        enc.insert(xv, zv);
        if !self.encode_unary(c, d, zv, vw, &mut enc) {
            return Res::Unknown;
        }
        let e = enc[&c];
        let solver = self.z3.solver(self.rlimit.min(60_000_000));
        let a = self.dom_tree(zv, vw, &rd);
        self.z3.assert(&solver, a);
        let w = self.pool.node(c).w;
        let bad = match y {
            Some(y) => {
                let ry = self.doms.get(y);
                let iy = if ry.is_empty() { self.z3.fals() } else { self.dom_tree(zv, vw, &ry) };
                let same = self.z3.eq(e, iy);
                self.z3.not(same)
            }
            None => {
                let kk = if w == 1 {
                    if k != 0 {
                        self.z3.tru()
                    } else {
                        self.z3.fals()
                    }
                } else {
                    self.z3.konst(k, w as u32)
                };
                let same = self.z3.eq(e, kk);
                self.z3.not(same)
            }
        };
        self.z3.assert(&solver, bad);
        let (r, _) = self.z3.check(&solver, &[]);
        self.z3.free(solver);
        r
    }
    /// the value of t if it is the same for all values of the unit
    fn const_on(&mut self, u: Unit, t: u32) -> Option<u64> {
        let (key, root) = match u {
            Unit::Var(_, d) => {
                let c = self.pool.canon(t);
                ((d, c), c)
            }
            Unit::Rel(r) => ((r | 0x8000_0000, t), t),
        };
        if let Some(r) = self.const_cache.get(&key) {
            return *r;
        }
        let order = self.pool.topo_many(&[root]);
        let mut bufs = HashMap::new();
        let mut val: Option<u64> = None;
        let mut same = true;
        match u {
            Unit::Var(_, d) => {
                let ranges = self.doms.get(d);
                let xv = *order.iter().find(|&&t| self.pool.node(t).op == Op::Var).unwrap();
                let var = self.pool.node(xv).aux;
                // the ends of the ranges first: they tell most terms apart
                let mut cols = HashMap::new();
                let step = (ranges.len() / 64).max(1);
                let ends: Vec<u64> = ranges.iter().step_by(step).flat_map(|&(a, b)| [a, b]).collect();
                let n = ends.len();
                cols.insert(var, ends);
                self.pool.eval_many(&[root], &order, &cols, n, &mut bufs);
                for &x in &bufs[&root][..n] {
                    if *val.get_or_insert(x) != x {
                        same = false;
                    }
                }
                if same {
                    let mut chunk: Vec<u64> = vec![];
                    let k = ranges.len();
                    'o: for (i, &(a, b)) in ranges.iter().enumerate() {
                        let mut x = a;
                        loop {
                            chunk.push(x);
                            if chunk.len() == 8192 || (i + 1 == k && x == b) {
                                let n = chunk.len();
                                cols.insert(var, std::mem::take(&mut chunk));
                                self.pool.eval_many(&[root], &order, &cols, n, &mut bufs);
                                if bufs[&root][..n].iter().any(|x| Some(*x) != val) {
                                    same = false;
                                    break 'o;
                                }
                            }
                            if x == b {
                                break;
                            }
                            x += 1;
                        }
                    }
                }
            }
            Unit::Rel(r) => {
                let rd = self.rel(r);
                self.pool.eval_many(&[root], &order, &rd.cols, rd.n, &mut bufs);
                for &x in &bufs[&root][..rd.n] {
                    if *val.get_or_insert(x) != x {
                        same = false;
                        break;
                    }
                }
            }
        }
        let r = if same { val } else { None };
        if let (Some(k), Unit::Var(_, d), true) = (r, u, self.do_confirm) {
            self.confirm_split(root, d, None, k);
        }
        self.const_cache.insert(key, r);
        r
    }
    /// replace the parts that depend on one unit and are constant on it
    pub fn fold(&mut self, pc: &PathCond, s: S) -> S {
        let s = self.simp(pc, s);
        let mut memo = HashMap::new();
        self.fold_d(pc, s, &mut memo)
    }
    fn fold_d(&mut self, pc: &PathCond, s: S, memo: &mut HashMap<u32, S>) -> S {
        let t = match s {
            S::K(_) => return s,
            S::T(t) => t,
        };
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let n = *self.pool.node(t);
        if n.op == Op::Var {
            return s;
        }
        let us = self.units(pc, self.pool.supp(s));
        let r = if us.len() == 1 {
            match self.const_on(us[0], t) {
                Some(k) => S::K(k),
                None => s,
            }
        } else {
            let a = self.fold_d(pc, n.a, memo);
            let b = self.fold_d(pc, n.b, memo);
            let c = self.fold_d(pc, n.c, memo);
            if a == n.a && b == n.b && c == n.c {
                s
            } else {
                let r = self.pool.rebuild(&n, a, b, c);
                if r == s {
                    s
                } else {
                    self.fold_d(pc, r, memo)
                }
            }
        };
        memo.insert(t, r);
        r
    }
    /// an equivalent condition on this path whose split keys are recognizable: the low part of
    /// a two-part key is masked when its domain shows that the mask changes nothing
    fn mask_keys(&mut self, pc: &PathCond, s: S) -> S {
        let t = match s {
            S::K(_) => return s,
            S::T(t) => t,
        };
        let n = *self.pool.node(t);
        if n.w != 1 {
            return s;
        }
        match n.op {
            Op::And | Op::Or | Op::Xor => {
                let a = self.mask_keys(pc, n.a);
                let b = self.mask_keys(pc, n.b);
                if a == n.a && b == n.b {
                    s
                } else {
                    self.pool.rebuild(&n, a, b, n.c)
                }
            }
            Op::Mem => {
                let k = match n.a {
                    S::T(k) => *self.pool.node(k),
                    _ => return s,
                };
                if k.op != Op::Or && k.op != Op::Add || self.pool.supp(n.a).count_ones() < 2 {
                    return s;
                }
                for (x, y) in [(k.a, k.b), (k.b, k.a)] {
                    if let S::T(u) = x {
                        let m = *self.pool.node(u);
                        if let (Op::Shl, S::K(sh)) = (m.op, m.b) {
                            if sh == 0 || sh >= k.w as u64 || self.pool.range(y).1 >> sh == 0 {
                                continue;
                            }
                            if self.bounds(pc, y).1 >> sh == 0 {
                                let y = self.pool.bin(Op::And, k.w, y, S::K((1 << sh) - 1));
                                let key = self.pool.bin(k.op, k.w, x, y);
                                return self.pool.rebuild(&n, key, n.b, n.c);
                            }
                        }
                    }
                }
                s
            }
            _ => s,
        }
    }
    fn preimage(&mut self, pc: &PathCond, p: S, _aw: u8, ks: &[u64]) -> Option<Vec<Vec<(u32, u64)>>> {
        let us = self.units(pc, self.pool.supp(p));
        if us.len() == 1 {
            let m = self.pre_unit(pc, p, us[0], ks)?;
            return Some(m.into_iter().map(|(_, a)| a).collect());
        }
        if let S::T(t) = p {
            let n = *self.pool.node(t);
            if n.op == Op::ZExt {
                return self.preimage(pc, n.a, n.aw, ks);
            }
        }
        let (a, b, k) = self.split_key(p)?;
        let keys: Vec<(u64, u64)> = ks.iter().map(|x| (x >> k, x & ((1 << k) - 1))).collect();
        self.pre_pairs(pc, a, b, &keys)
    }
    fn pre_unit(&mut self, pc: &PathCond, s: S, u: Unit, ks: &[u64]) -> Option<Vec<(u64, Vec<(u32, u64)>)>> {
        let s = self.simp(pc, s);
        let t = match s {
            S::K(_) => return None,
            S::T(t) => t,
        };
        let want: HashSet<u64> = ks.iter().copied().collect();
        let mut out = vec![];
        match u {
            Unit::Var(v, d) => {
                let pieces = self.doms.tabulate(&mut self.pool, t, d)?;
                let m = mask(self.pool.node(t).w);
                let mut sorted: Vec<u64> = want.iter().copied().collect();
                sorted.sort_unstable();
                for p in pieces.iter() {
                    if p.konst {
                        if want.contains(&p.val) {
                            for x in p.lo..=p.hi {
                                if self.doms.contains(d, x) {
                                    out.push((p.val, vec![(v, x)]));
                                }
                                if out.len() > ROW_CAP {
                                    return None;
                                }
                            }
                        }
                    } else {
                        for &k in &sorted {
                            let x = k.wrapping_sub(p.val) & m;
                            if x >= p.lo && x <= p.hi && self.doms.contains(d, x) {
                                out.push((k, vec![(v, x)]));
                            }
                        }
                    }
                }
            }
            Unit::Rel(r) => {
                let rd = self.rel(r);
                let order = self.pool.topo(t, None);
                let mut bufs = HashMap::new();
                self.pool.eval_many(&[t], &order, &rd.cols, rd.n, &mut bufs);
                let vals = &bufs[&t];
                for i in 0..rd.n {
                    if want.contains(&vals[i]) {
                        out.push((vals[i], rd.vars.iter().map(|v| (*v, rd.cols[v][i])).collect()));
                    }
                }
            }
        }
        Some(out)
    }
    fn pre_pairs(&mut self, pc: &PathCond, a: S, b: S, keys: &[(u64, u64)]) -> Option<Vec<Vec<(u32, u64)>>> {
        let a = self.simp(pc, a);
        let b = self.simp(pc, b);
        let ua = self.units(pc, self.pool.supp(a));
        let ub = self.units(pc, self.pool.supp(b));
        let his: Vec<u64> = keys.iter().map(|k| k.0).collect();
        let los: Vec<u64> = keys.iter().map(|k| k.1).collect();
        if ua.len() != 1 || ub.len() != 1 || ua[0] == ub[0] {
            return None;
        }
        let pa = self.pre_unit(pc, a, ua[0], &his)?;
        let pb = self.pre_unit(pc, b, ub[0], &los)?;
        let mut ma: HashMap<u64, Vec<usize>> = HashMap::new();
        for (i, x) in pa.iter().enumerate() {
            ma.entry(x.0).or_default().push(i);
        }
        let mut mb: HashMap<u64, Vec<usize>> = HashMap::new();
        for (i, x) in pb.iter().enumerate() {
            mb.entry(x.0).or_default().push(i);
        }
        let mut out = vec![];
        for (h, l) in keys {
            if let (Some(x), Some(y)) = (ma.get(h), mb.get(l)) {
                for &i in x {
                    for &j in y {
                        let mut row = pa[i].1.clone();
                        row.extend(pb[j].1.iter().copied());
                        out.push(row);
                        if out.len() > ROW_CAP {
                            return None;
                        }
                    }
                }
            }
        }
        Some(out)
    }

    // ------------------------------------------------------------ solver queries
    /// rewrite membership of split keys and pair tables so that their arguments are
    /// collapsed to the values the table distinguishes (an equivalent formula)
    fn norm(&mut self, pc: &PathCond, s: S) -> S {
        let t = match s {
            S::K(_) => return s,
            S::T(t) => t,
        };
        if let Some(&r) = self.norm_cache.get(&t) {
            return r;
        }
        let n = *self.pool.node(t);
        let r = match n.op {
            Op::Var => s,
            Op::Mem if self.pool.supp(s).count_ones() > 1 => {
                if let Some((a, b, k)) = self.split_key(n.a) {
                    let key = (n.aux, k as u64);
                    let id = match self.mem_pairs.get(&key) {
                        Some(&i) => i,
                        None => {
                            let set = self.pool.sets[n.aux as usize].clone();
                            let m: Vec<(u64, u64, u64)> =
                                set.iter().map(|x| (x >> k, x & ((1 << k) - 1), 1)).collect();
                            let id = self.add_pair(m, 0);
                            self.mem_pairs.insert(key, id);
                            id
                        }
                    };
                    let p = self.pool.pair(id, 1, n.aw, a, b);
                    self.norm(pc, p)
                } else {
                    s
                }
            }
            Op::Pair => {
                let p = &self.pool.pairs[n.aux as usize];
                let mut fs: Vec<u64> = p.by_first.keys().copied().collect();
                let mut ss: Vec<u64> = p.by_second.keys().copied().collect();
                fs.sort_unstable();
                ss.sort_unstable();
                let mut coll = |ctx: &mut Ctx, vals: &[u64], x: S| -> S {
                    let sent = mask(n.aw);
                    let pieces: Vec<Piece> = vals
                        .iter()
                        .map(|&v| Piece {
                            lo: v,
                            hi: v,
                            konst: true,
                            val: v,
                        })
                        .collect();
                    assert!(!vals.contains(&sent));
                    let id = ctx.pool.table(pieces, Some(sent), n.aw);
                    ctx.pool.tab(id, n.aw, x)
                };
                let a = coll(self, &fs, n.a);
                let b = coll(self, &ss, n.b);
                // not interned through pair(): keep the node even when a side folds
                self.pool.pair(n.aux, n.w, n.aw, a, b)
            }
            _ => {
                let a = self.norm(pc, n.a);
                let b = self.norm(pc, n.b);
                let c = self.norm(pc, n.c);
                if a == n.a && b == n.b && c == n.c {
                    s
                } else {
                    self.pool.rebuild(&n, a, b, c)
                }
            }
        };
        self.norm_cache.insert(t, r);
        r
    }
    pub fn add_pair(&mut self, m: Vec<(u64, u64, u64)>, default: u64) -> u32 {
        let mut p = PairTable {
            map: HashMap::new(),
            default,
            by_first: HashMap::new(),
            by_second: HashMap::new(),
        };
        for (a, b, v) in m {
            p.map.insert((a, b), v);
            p.by_first.entry(a).or_default().push((b, v));
            p.by_second.entry(b).or_default().push((a, v));
        }
        for v in p.by_first.values_mut() {
            v.sort_unstable();
        }
        for v in p.by_second.values_mut() {
            v.sort_unstable();
        }
        self.pool.pairs.push(p);
        self.pool.pairs.len() as u32 - 1
    }

    fn component(&self, pc: &PathCond, extra: &[u32]) -> (Vec<u32>, Vec<Unit>) {
        let mut m: u64 = 0;
        let expand = |m: u64| -> u64 {
            let mut r = m & !pc.single;
            for &q in &pc.rels {
                let k = self.rels[q as usize].mask;
                if r & k != 0 {
                    r |= k;
                }
            }
            r
        };
        for &e in extra {
            m |= self.pool.info[e as usize].supp;
        }
        m = expand(m);
        let mut used = vec![false; pc.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.cons.iter().enumerate() {
                if !used[i] {
                    let s = self.pool.info[c as usize].supp & !pc.single;
                    if s & m != 0 {
                        used[i] = true;
                        m = expand(m | s);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut l: Vec<u32> = pc
            .cons
            .iter()
            .enumerate()
            .filter(|(i, _)| used[*i])
            .map(|(_, &c)| c)
            .collect();
        l.extend_from_slice(extra);
        l.sort_unstable();
        l.dedup();
        (l, self.units(pc, m))
    }

    /// key of a query that does not depend on the names of the variables or on the process;
    /// the second component lists the variables in canonical order
    fn canon_key(&mut self, l: &[u32], us: &[Unit]) -> (u128, Rc<Vec<u32>>) {
        let k = (l.to_vec(), unit_key(us));
        if let Some(r) = self.key_cache.get(&k) {
            return r.clone();
        }
        let mut vars: Vec<u32> = vec![];
        for u in us {
            match u {
                Unit::Var(v, _) => vars.push(*v),
                Unit::Rel(r) => vars.extend(self.rels[*r as usize].vars.iter()),
            }
        }
        vars.sort_unstable();
        vars.dedup();
        let m: Vec<(u32, u32)> = vars.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
        let mut hs: Vec<u128> = vec![];
        for &t in l {
            let r = self.pool.rename(t, &m);
            hs.push(self.pool.shash(r));
        }
        hs.sort_unstable();
        let pos = |v: u32| vars.iter().position(|x| *x == v).unwrap() as u32;
        let mut uh: Vec<(Vec<u32>, u128)> = us
            .iter()
            .map(|u| match u {
                Unit::Var(v, d) => (vec![pos(*v)], self.doms.hash(*d)),
                Unit::Rel(r) => {
                    let rd = &self.rels[*r as usize];
                    let cols: Vec<&Vec<u64>> = rd.vars.iter().map(|v| &rd.cols[v]).collect();
                    (rd.vars.iter().map(|v| pos(*v)).collect(), h128(&cols))
                }
            })
            .collect();
        uh.sort();
        let r = (h128(&(hs, uh)), Rc::new(vars));
        self.key_cache.insert(k, r.clone());
        r
    }

    /// the constraints whose variables all occur in t, with t
    fn narrow(&self, pc: &PathCond, t: u32) -> (Vec<u32>, Vec<Unit>) {
        let us = self.units(pc, self.pool.info[t as usize].supp);
        let m = us.iter().fold(0, |m, u| m | self.unit_mask(*u));
        let mut l: Vec<u32> = pc
            .cons
            .iter()
            .copied()
            .filter(|c| self.pool.info[*c as usize].supp & !pc.single & !m == 0)
            .collect();
        l.push(t);
        l.sort_unstable();
        l.dedup();
        (l, us)
    }
    pub fn query(&mut self, pc: &PathCond, t: u32) -> (Res, Option<Vec<(u32, u64)>>) {
        let (l, us) = self.component(pc, &[t]);
        let (l1, us1) = self.narrow(pc, t);
        if l1.len() < l.len() {
            // unsatisfiable with fewer constraints is unsatisfiable
            let (r, _) = self.query_l(pc, &l1, &us1);
            if r == Res::Unsat {
                return (r, None);
            }
        }
        self.query_l(pc, &l, &us)
    }
    fn query_l(&mut self, pc: &PathCond, l: &[u32], us: &[Unit]) -> (Res, Option<Vec<(u32, u64)>>) {
        let (key, vars) = self.canon_key(l, us);
        let back = |m: Option<Vec<(u32, u64)>>| -> Option<Vec<(u32, u64)>> {
            m.map(|m| m.into_iter().map(|(i, x)| (vars[i as usize], x)).collect())
        };
        if let Some((r, m)) = self.qcache.get(&key) {
            self.stats.cache_hits += 1;
            return (*r, back(m.clone()));
        }
        if let Some((r, m)) = self.shared.as_ref().and_then(|s| s.get(key)) {
            self.stats.shared_hits += 1;
            let m = if r == Res::Sat { Some(m) } else { None };
            self.qcache.insert(key, (r, m.clone()));
            return (r, back(m));
        }
        self.stats.decided_solver += 1;
        let (r, m) = self.solve(pc, l, us, false);
        let cm: Option<Vec<(u32, u64)>> = m.as_ref().map(|m| {
            m.iter()
                .map(|(v, x)| (vars.iter().position(|y| y == v).unwrap() as u32, *x))
                .collect()
        });
        if let Some(s) = &self.shared {
            s.put(key, r, cm.as_deref().unwrap_or(&[]));
        }
        self.qcache.insert(key, (r, cm));
        (r, m)
    }
    /// independent solver confirmation that t holds on the path (t was decided true)
    /// Returns None when the encoding is too large.
    pub fn confirm(&mut self, pc: &PathCond, s: S) -> Option<bool> {
        let s = self.simp(pc, s);
        let ns = self.pool.not(s);
        let t = match ns {
            S::K(k) => return Some(k == 0),
            S::T(t) => t,
        };
        // first with the constraints over the variables of t only: if t follows from these
        // it follows from the path condition
        let (l, us) = self.component(pc, &[t]);
        let (l1, us1) = self.narrow(pc, t);
        let key = !self.canon_key(&l, &us).0;
        let key1 = !self.canon_key(&l1, &us1).0;
        for k in [key1, key] {
            if self.confirm_cache.contains(&k) || self.shared.as_ref().is_some_and(|s| s.get(k).is_some()) {
                self.stats.confirm_cached += 1;
                return Some(true);
            }
        }
        if key != key1 && !self.confirm_weak.contains(&key1) {
            let (r, _) = self.solve(pc, &l1, &us1, true);
            if r == Res::Unsat {
                self.stats.confirms += 1;
                self.confirm_cache.insert(key1);
                if let Some(s) = &self.shared {
                    s.put(key1, r, &[]);
                }
                return Some(true);
            }
            self.confirm_weak.insert(key1);
        }
        let (r, _) = self.solve(pc, &l, &us, true);
        match r {
            Res::Unsat => {
                self.stats.confirms += 1;
                self.confirm_cache.insert(key);
                if let Some(s) = &self.shared {
                    s.put(key, r, &[]);
                }
                Some(true)
            }
            Res::Sat => Some(false),
            Res::Unknown => {
                self.stats.confirm_skipped += 1;
                self.confirm_cache.insert(key);
                None
            }
        }
    }

    fn classes(&mut self, u: Unit, ts: &[u32]) -> Option<Rc<Classes>> {
        let (key, order, roots): (_, Vec<u32>, Vec<u32>) = match u {
            Unit::Var(_, d) => {
                let ct: Vec<u32> = ts.iter().map(|&t| self.pool.canon(t)).collect();
                ((d, ct.clone()), self.pool.topo_many(&ct), ct)
            }
            Unit::Rel(r) => ((r | 0x8000_0000, ts.to_vec()), self.pool.topo_many(ts), ts.to_vec()),
        };
        if let Some(r) = self.class_cache.get(&key) {
            return r.clone();
        }
        let mut map: HashMap<Vec<u64>, u32> = HashMap::new();
        let mut cl = Classes {
            reps: vec![],
            vals: vec![],
            tuples: vec![],
        };
        let mut over = false;
        let cap = if matches!(u, Unit::Var(..)) { CLASS_CAP } else { 30_000 };
        let mut last: Vec<u64> = vec![];
        let mut feed = |bufs: &HashMap<u32, Vec<u64>>, n: usize, base: u32, xs: Option<&[u64]>| -> bool {
            for i in 0..n {
                if !last.is_empty() && roots.iter().zip(last.iter()).all(|(r, l)| bufs[r][i] == *l) {
                    continue;
                }
                let tup: Vec<u64> = roots.iter().map(|r| bufs[r][i]).collect();
                last = tup.clone();
                if !map.contains_key(&tup) {
                    map.insert(tup.clone(), cl.reps.len() as u32);
                    cl.reps.push(base + i as u32);
                    cl.vals.push(xs.map(|x| x[i]).unwrap_or(0));
                    cl.tuples.push(tup);
                    if cl.reps.len() > cap {
                        over = true;
                        return false;
                    }
                }
            }
            true
        };
        match u {
            Unit::Var(_, d) => {
                let ranges = self.doms.get(d);
                let xv = *order.iter().find(|&&t| self.pool.node(t).op == Op::Var).unwrap();
                let var = self.pool.node(xv).aux;
                let mut bufs = HashMap::new();
                let mut chunk: Vec<u64> = vec![];
                let mut go = true;
                let mut flush = |chunk: &mut Vec<u64>, pool: &Pool| -> bool {
                    let n = chunk.len();
                    let mut cols = HashMap::new();
                    let xs = std::mem::take(chunk);
                    cols.insert(var, xs);
                    pool.eval_many(&roots, &order, &cols, n, &mut bufs);
                    feed(&bufs, n, 0, Some(&cols[&var]))
                };
                'o: for &(a, b) in ranges.iter() {
                    for x in a..=b {
                        chunk.push(x);
                        if chunk.len() == 8192 && !flush(&mut chunk, &self.pool) {
                            go = false;
                            break 'o;
                        }
                    }
                }
                if go && !chunk.is_empty() {
                    flush(&mut chunk, &self.pool);
                }
            }
            Unit::Rel(r) => {
                let rd = self.rel(r);
                let mut bufs = HashMap::new();
                self.pool.eval_many(&roots, &order, &rd.cols, rd.n, &mut bufs);
                feed(&bufs, rd.n, 0, None);
            }
        }
        let r = if over {
            None
        } else {
            // order the classes so that runs are long
            let mut idx: Vec<usize> = (0..cl.reps.len()).collect();
            idx.sort_by(|&a, &b| cl.tuples[a].cmp(&cl.tuples[b]));
            Some(Rc::new(Classes {
                reps: idx.iter().map(|&i| cl.reps[i]).collect(),
                vals: idx.iter().map(|&i| cl.vals[i]).collect(),
                tuples: idx.iter().map(|&i| cl.tuples[i].clone()).collect(),
            }))
        };
        self.class_cache.insert(key, r.clone());
        r
    }

    fn unit_terms(&self, s: S, masks: &[u64], single: u64, out: &mut Vec<Vec<u32>>, seen: &mut HashSet<u32>) {
        let t = match s {
            S::K(_) => return,
            S::T(t) => t,
        };
        if !seen.insert(t) {
            return;
        }
        let supp = self.pool.info[t as usize].supp & !single;
        for (i, m) in masks.iter().enumerate() {
            if supp & !m == 0 {
                if !out[i].contains(&t) {
                    out[i].push(t);
                }
                return;
            }
        }
        let n = self.pool.node(t);
        for s in [n.a, n.b, n.c] {
            self.unit_terms(s, masks, single, out, seen);
        }
    }

    /// direct: encode single-variable parts with the character itself as solver variable
    fn solve(&mut self, pc: &PathCond, l: &[u32], us: &[Unit], direct: bool) -> (Res, Option<Vec<(u32, u64)>>) {
        self.z3_gen += 1;
        if self.z3_gen % 3000 == 0 {
            let (q, s, u, n, m) = (self.z3.queries, self.z3.sat, self.z3.unsat, self.z3.nanos, self.z3.max_nanos);
            self.z3 = Z3::new();
            self.z3.queries = q;
            self.z3.sat = s;
            self.z3.unsat = u;
            self.z3.nanos = n;
            self.z3.max_nanos = m;
        }
        let mut goals = vec![];
        for &t in l {
            let s = self.simp(pc, S::T(t));
            let s = self.norm(pc, s);
            match s {
                S::K(0) => return (Res::Unsat, None),
                S::K(_) => {}
                S::T(t) => goals.push(t),
            }
        }
        if goals.is_empty() {
            return (Res::Sat, Some(vec![]));
        }
        let masks: Vec<u64> = us.iter().map(|&u| self.unit_mask(u)).collect();
        let mut lists = vec![vec![]; us.len()];
        let mut seen = HashSet::new();
        for &g in &goals {
            self.unit_terms(S::T(g), &masks, pc.single, &mut lists, &mut seen);
        }
        let mut enc: HashMap<u32, Ast> = HashMap::new();
        self.poss.clear();
        let mut wants: Vec<Ast> = vec![];
        enum How {
            Class(Unit, Rc<Classes>),
            Direct(u32, u8),
            None,
        }
        let mut hows = vec![];
        let solver = self.z3.solver(self.rlimit);
        for (i, &u) in us.iter().enumerate() {
            let ts = lists[i].clone();
            if ts.is_empty() {
                hows.push(How::None);
                continue;
            }
            let cls = if direct && matches!(u, Unit::Var(..)) {
                None
            } else {
                self.classes(u, &ts)
            };
            match (cls, u) {
                (Some(c), _) => {
                    let n = c.tuples.len();
                    let bits = (usize::BITS - (n.max(2) - 1).leading_zeros()).max(1);
                    let iv = self.z3.var(&format!("u{}", i), bits);
                    let nk = self.z3.konst((n - 1) as u64, bits);
                    let a = self.z3.cmp(Op::Ule, iv, nk);
                    self.z3.assert(&solver, a);
                    for (j, &t) in ts.iter().enumerate() {
                        let w = self.pool.node(t).w;
                        let col: Vec<u64> = c.tuples.iter().map(|t| t[j]).collect();
                        let e = self.index_tree(iv, bits, &col, w);
                        enc.insert(t, e);
                        self.poss.insert(t, col.into_iter().collect());
                    }
                    wants.push(iv);
                    hows.push(How::Class(u, c));
                }
                (None, Unit::Var(v, d)) => {
                    let node = match self.var_nodes[v as usize] {
                        Some(S::T(t)) => t,
                        _ => unreachable!(),
                    };
                    let w = self.pool.node(node).w;
                    let zv = self.z3.var(&format!("v{}", v), w as u32);
                    enc.insert(node, zv);
                    let r = self.doms.get(d);
                    if r.len() > 6000 {
                        self.z3.free(solver);
                        return (Res::Unknown, None);
                    }
                    let dc = self.dom_tree(zv, w, &r);
                    self.z3.assert(&solver, dc);
                    for &t in &ts {
                        if !self.encode_unary(t, d, zv, w, &mut enc) {
                            self.z3.free(solver);
                            return (Res::Unknown, None);
                        }
                    }
                    wants.push(zv);
                    hows.push(How::Direct(v, w));
                }
                (None, _) => {
                    self.z3.free(solver);
                    return (Res::Unknown, None);
                }
            }
        }
        for &g in &goals {
            let e = match self.encode(S::T(g), 1, &mut enc) {
                Some(e) => e,
                None => {
                    self.z3.free(solver);
                    return (Res::Unknown, None);
                }
            };
            self.z3.assert(&solver, e);
        }
        let t0 = self.z3.nanos;
        let (r, vals) = self.z3.check(&solver, &wants);
        if let Some(dir) = &self.dump {
            let s = self.z3.to_string(&solver);
            let _ = std::fs::write(
                format!("{}/q{}_{:?}.smt2", dir, self.z3.queries, r),
                format!(
                    "(set-logic QF_BV)\n; {} ns\n{}{}(check-sat)\n",
                    self.z3.nanos - t0,
                    goals.iter().map(|g| format!("; {}\n", self.pool.show(S::T(*g)))).collect::<String>(),
                    s
                ),
            );
        }
        self.z3.free(solver);
        let m = if r == Res::Sat {
            let mut out = vec![];
            let mut k = 0;
            for h in &hows {
                match h {
                    How::None => {}
                    How::Direct(v, _) => {
                        out.push((*v, vals[k]));
                        k += 1;
                    }
                    How::Class(u, c) => {
                        let i = vals[k] as usize;
                        k += 1;
                        match u {
                            Unit::Var(v, _) => out.push((*v, c.vals[i])),
                            Unit::Rel(r) => {
                                let rd = self.rel(*r);
                                let row = c.reps[i] as usize;
                                for v in &rd.vars {
                                    out.push((*v, rd.cols[v][row]));
                                }
                            }
                        }
                    }
                }
            }
            Some(out)
        } else {
            None
        };
        (r, m)
    }
    fn index_tree(&self, iv: Ast, bits: u32, col: &[u64], w: u8) -> Ast {
        fn rec(z: &Z3, iv: Ast, bit: i32, lo: usize, col: &[u64], w: u8) -> Ast {
            let span = 1usize << (bit + 1);
            let hi = (lo + span).min(col.len());
            let s = &col[lo.min(col.len() - 1)..hi.max(lo.min(col.len() - 1) + 1)];
            if bit < 0 || s.iter().all(|x| *x == s[0]) {
                return if w == 1 {
                    if s[0] != 0 {
                        z.tru()
                    } else {
                        z.fals()
                    }
                } else {
                    z.konst(s[0], w as u32)
                };
            }
            let mid = lo + span / 2;
            if mid >= col.len() {
                return rec(z, iv, bit - 1, lo, col, w);
            }
            let l = rec(z, iv, bit - 1, lo, col, w);
            let h = rec(z, iv, bit - 1, mid, col, w);
            let b = z.eq(z.extract(bit as u32, bit as u32, iv), z.konst(1, 1));
            z.ite(b, h, l)
        }
        rec(&self.z3, iv, bits as i32 - 1, 0, col, w)
    }
    fn dom_tree(&self, v: Ast, w: u8, r: &[(u64, u64)]) -> Ast {
        let mut p: Vec<Piece> = vec![];
        let mut next = 0u64;
        let top = mask(w);
        for &(a, b) in r {
            if a > next {
                p.push(Piece { lo: next, hi: a - 1, konst: true, val: 0 });
            }
            p.push(Piece { lo: a, hi: b, konst: true, val: 1 });
            next = b + 1;
        }
        if next <= top {
            p.push(Piece { lo: next, hi: top, konst: true, val: 0 });
        }
        self.piece_tree(v, w, &p, 1)
    }
    /// encode a term of one variable; table reads become comparison trees over the variable
    fn encode_unary(&mut self, t: u32, d: u32, zv: Ast, vw: u8, enc: &mut HashMap<u32, Ast>) -> bool {
        if enc.contains_key(&t) {
            return true;
        }
        let n = *self.pool.node(t);
        if matches!(n.op, Op::Sel | Op::Tab | Op::Mem | Op::Pair) {
            let pieces = match self.doms.tabulate(&mut self.pool, t, d) {
                Some(p) if p.len() <= 4000 => p,
                _ => return false,
            };
            let e = self.piece_tree(zv, vw, &pieces, n.w);
            enc.insert(t, e);
            return true;
        }
        for s in [n.a, n.b, n.c] {
            if let S::T(u) = s {
                if !self.encode_unary(u, d, zv, vw, enc) {
                    return false;
                }
            }
        }
        self.encode(S::T(t), n.w, enc).is_some()
    }
    /// a function given by pieces as a decision tree over the bits of v; where there is no piece
    /// any value will do
    fn piece_tree(&self, v: Ast, vw: u8, p: &[Piece], w: u8) -> Ast {
        self.bit_tree(v, vw as i32 - 1, 0, p, w).unwrap()
    }
    fn leaf(&self, v: Ast, bit: i32, q: &Piece, w: u8, vw: u8) -> Ast {
        let z = &self.z3;
        if q.konst {
            return if w == 1 {
                if q.val != 0 {
                    z.tru()
                } else {
                    z.fals()
                }
            } else {
                z.konst(q.val, w as u32)
            };
        }
        let _ = bit;
        let x = if w > vw {
            z.zext((w - vw) as u32, v)
        } else if w < vw {
            z.extract(w as u32 - 1, 0, v)
        } else {
            v
        };
        let r = z.bin(Op::Add, x, z.konst(q.val, w as u32));
        if w == 1 {
            z.eq(r, z.konst(1, 1))
        } else {
            r
        }
    }
    fn bit_tree(&self, v: Ast, top: i32, lo: u64, p: &[Piece], w: u8) -> Option<Ast> {
        fn rec(c: &Ctx, v: Ast, vw: u8, bit: i32, lo: u64, p: &[Piece], w: u8) -> Option<Ast> {
            if p.is_empty() {
                return None;
            }
            if p.len() == 1 || bit < 0 {
                return Some(c.leaf(v, bit, &p[0], w, vw));
            }
            let mid = lo + (1u64 << bit);
            // pieces below mid and from mid on (one may be on both sides)
            let a = p.partition_point(|q| q.lo < mid);
            let b = p.partition_point(|q| q.hi < mid);
            let l = rec(c, v, vw, bit - 1, lo, &p[..a], w);
            let h = rec(c, v, vw, bit - 1, mid, &p[b..], w);
            match (l, h) {
                (Some(l), Some(h)) => {
                    if l == h {
                        return Some(l);
                    }
                    let z = &c.z3;
                    let t = z.eq(z.extract(bit as u32, bit as u32, v), z.konst(1, 1));
                    Some(z.ite(t, h, l))
                }
                (l, None) => l,
                (None, h) => h,
            }
        }
        rec(self, v, (top + 1) as u8, top, lo, p, w)
    }
    fn encode(&mut self, s: S, w: u8, enc: &mut HashMap<u32, Ast>) -> Option<Ast> {
        let t = match s {
            S::K(k) => {
                return Some(if w == 1 {
                    if k != 0 {
                        self.z3.tru()
                    } else {
                        self.z3.fals()
                    }
                } else {
                    self.z3.konst(k, w as u32)
                })
            }
            S::T(t) => t,
        };
        if let Some(&e) = enc.get(&t) {
            return Some(e);
        }
        let n = *self.pool.node(t);
        let z = |c: &Ctx| -> *const Z3 { &c.z3 };
        let zz = unsafe { &*z(self) };
        let r = match n.op {
            Op::Var | Op::Sel => return None,
            Op::Tab => {
                let a = self.encode(n.a, n.aw, enc)?;
                let tb = &self.pool.tables[n.aux as usize];
                if tb.pieces.len() > 3000 {
                    return None;
                }
                let mut full: Vec<Piece> = vec![];
                let mut next = 0u64;
                let top = mask(n.aw);
                let mut done = false;
                for p in &tb.pieces {
                    if let Some(d) = tb.default {
                        if p.lo > next {
                            full.push(Piece { lo: next, hi: p.lo - 1, konst: true, val: d });
                        }
                    }
                    full.push(*p);
                    if p.hi >= top {
                        done = true;
                        break;
                    }
                    next = p.hi + 1;
                }
                if let (Some(d), false) = (tb.default, done) {
                    full.push(Piece { lo: next, hi: top, konst: true, val: d });
                }
                self.piece_tree(a, n.aw, &full, n.w)
            }
            Op::Mem => {
                let a = self.encode(n.a, n.aw, enc)?;
                let set = self.pool.sets[n.aux as usize].clone();
                if set.len() > 20000 {
                    return None;
                }
                let parts: Vec<Ast> = set.iter().map(|&k| zz.eq(a, zz.konst(k, n.aw as u32))).collect();
                zz.or(&parts)
            }
            Op::Pair => {
                let a = self.encode(n.a, n.aw, enc)?;
                let b = self.encode(n.b, n.aw, enc)?;
                let p = &self.pool.pairs[n.aux as usize];
                let pa = if let S::T(t) = n.a { self.poss.get(&t) } else { None };
                let pb = if let S::T(t) = n.b { self.poss.get(&t) } else { None };
                let mk = |v: u64| {
                    if n.w == 1 {
                        if v != 0 {
                            zz.tru()
                        } else {
                            zz.fals()
                        }
                    } else {
                        zz.konst(v, n.w as u32)
                    }
                };
                let mut fs: Vec<u64> = p.by_first.keys().copied().collect();
                fs.sort_unstable();
                let mut e = mk(p.default);
                for f in fs {
                    if pa.is_some_and(|s| !s.contains(&f)) {
                        continue;
                    }
                    let mut inner = mk(p.default);
                    for &(y, v) in &p.by_first[&f] {
                        if pb.is_some_and(|s| !s.contains(&y)) {
                            continue;
                        }
                        inner = zz.ite(zz.eq(b, zz.konst(y, n.aw as u32)), mk(v), inner);
                    }
                    e = zz.ite(zz.eq(a, zz.konst(f, n.aw as u32)), inner, e);
                }
                e
            }
            Op::Ite => {
                let a = self.encode(n.a, 1, enc)?;
                let b = self.encode(n.b, n.w, enc)?;
                let c = self.encode(n.c, n.w, enc)?;
                zz.ite(a, b, c)
            }
            Op::ZExt | Op::SExt => {
                let mut a = self.encode(n.a, n.aw, enc)?;
                if n.aw == 1 {
                    a = zz.b2v(a);
                }
                if n.op == Op::ZExt {
                    zz.zext((n.w - n.aw) as u32, a)
                } else {
                    zz.sext((n.w - n.aw) as u32, a)
                }
            }
            Op::Trunc => {
                let a = self.encode(n.a, n.aw, enc)?;
                let x = zz.extract(n.w as u32 - 1, 0, a);
                if n.w == 1 {
                    zz.eq(x, zz.konst(1, 1))
                } else {
                    x
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let mut a = self.encode(n.a, n.aw, enc)?;
                let mut b = self.encode(n.b, n.aw, enc)?;
                if n.aw == 1 && n.op != Op::Eq {
                    a = zz.b2v(a);
                    b = zz.b2v(b);
                }
                zz.cmp(n.op, a, b)
            }
            op => {
                let mut a = self.encode(n.a, n.w, enc)?;
                let mut b = self.encode(n.b, n.w, enc)?;
                if n.w == 1 {
                    match op {
                        Op::And => zz.and(&[a, b]),
                        Op::Or => zz.or(&[a, b]),
                        _ => {
                            a = zz.b2v(a);
                            b = zz.b2v(b);
                            zz.eq(zz.bin(op, a, b), zz.konst(1, 1))
                        }
                    }
                } else {
                    zz.bin(op, a, b)
                }
            }
        };
        enc.insert(t, r);
        Some(r)
    }
}

fn unit_key(us: &[Unit]) -> Vec<(u32, u32)> {
    us.iter()
        .map(|u| match u {
            Unit::Var(v, d) => (*v, *d),
            Unit::Rel(r) => (u32::MAX, *r),
        })
        .collect()
}
