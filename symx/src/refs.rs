//! Reference data (Unicode 16.0), as finite tables of the term language.
use crate::solve::Ctx;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};

pub struct Refs {
    ccc: Vec<(u64, u64, u64)>,
    /// forms: 0 canonical, 1 compatibility, 2 CJK variants
    dec: [BTreeMap<u64, Vec<u64>>; 3],
    pairs: Vec<(u64, u64, u64)>,
    props: Vec<Vec<(u64, u64, u64)>>,
    cache: HashMap<(u32, u32), u32>,
    pair_id: Option<u32>,
}

fn pieces(r: &[(u64, u64, u64)]) -> Vec<Piece> {
    r.iter()
        .map(|&(lo, hi, val)| Piece {
            lo,
            hi,
            konst: true,
            val,
        })
        .collect()
}

impl Refs {
    pub fn load(path: &str) -> Refs {
        let t = std::fs::read_to_string(path).expect("refdata");
        let mut r = Refs {
            ccc: vec![],
            dec: Default::default(),
            pairs: vec![],
            props: vec![vec![]; 6],
            cache: HashMap::new(),
            pair_id: None,
        };
        let h = |s: &str| u64::from_str_radix(s, 16).unwrap();
        for l in t.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "ccc" => r.ccc.push((h(f[1]), h(f[2]), f[3].parse().unwrap())),
                "dec" | "kdec" | "cjk" => {
                    let k = match f[0] {
                        "dec" => 0,
                        "kdec" => 1,
                        _ => 2,
                    };
                    r.dec[k].insert(h(f[1]), f[2..].iter().map(|x| h(x)).collect());
                }
                "pair" => r.pairs.push((h(f[1]), h(f[2]), h(f[3]))),
                "prop" => {
                    let k: usize = f[1].parse().unwrap();
                    r.props[k].push((h(f[2]), h(f[3]), f[4].parse().unwrap()));
                }
                _ => {}
            }
        }
        // Hangul syllables, by the arithmetic of the Unicode Standard, chapter 3.12
        for k in 0..2 {
            for s in 0..11172u64 {
                let (l, v, t) = (0x1100 + s / 588, 0x1161 + s % 588 / 28, 0x11A7 + s % 28);
                let mut d = vec![l, v];
                if t != 0x11A7 {
                    d.push(t);
                }
                r.dec[k].insert(0xAC00 + s, d);
            }
        }
        r
    }
    pub fn ccc(&mut self, pool: *mut Pool) -> u32 {
        let pool = unsafe { &mut *pool };
        let p = pieces(&self.ccc);
        *self
            .cache
            .entry((0, 0))
            .or_insert_with(|| pool.table(p, Some(0), 32))
    }
    /// length of the decomposition; 0 when the character does not decompose
    pub fn len_tab(&mut self, pool: &mut Pool, form: usize) -> u32 {
        if let Some(&t) = self.cache.get(&(1, form as u32)) {
            return t;
        }
        let mut r: Vec<(u64, u64, u64)> = vec![];
        for (c, d) in &self.dec[form] {
            push(&mut r, *c, d.len() as u64);
        }
        let t = pool.table(pieces(&r), Some(0), 32);
        self.cache.insert((1, form as u32), t);
        t
    }
    pub fn at_tab(&mut self, pool: &mut Pool, form: usize, k: usize) -> u32 {
        let key = (2 + k as u32, form as u32);
        if let Some(&t) = self.cache.get(&key) {
            return t;
        }
        let mut r: Vec<(u64, u64, u64)> = vec![];
        for (c, d) in &self.dec[form] {
            if let Some(&x) = d.get(k) {
                push(&mut r, *c, x);
            }
        }
        let t = pool.table(pieces(&r), Some(0), 32);
        self.cache.insert(key, t);
        t
    }
    pub fn pair_tab(&mut self, ctx: &mut Ctx) -> u32 {
        if let Some(p) = self.pair_id {
            return p;
        }
        let id = ctx.add_pair(self.pairs.clone(), 0);
        self.pair_id = Some(id);
        id
    }
    pub fn prop_tab(&mut self, pool: &mut Pool, k: usize) -> u32 {
        let key = (1000 + k as u32, 0);
        if let Some(&t) = self.cache.get(&key) {
            return t;
        }
        let t = pool.table(pieces(&self.props[k]), Some(0), 32);
        self.cache.insert(key, t);
        t
    }
}

fn push(r: &mut Vec<(u64, u64, u64)>, c: u64, v: u64) {
    if let Some(l) = r.last_mut() {
        if l.1 + 1 == c && l.2 == v {
            l.1 = c;
            return;
        }
    }
    r.push((c, c, v));
}
