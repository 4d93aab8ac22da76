//! Parser for the textual LLVM IR that rustc/opt print. Function bodies and global
//! initialisers are parsed lazily, only when execution reaches them.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => panic!("field_off"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Arr(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i].clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    /// flattened scalar leaves: (type, byte offset)
    pub fn leaves(&self) -> Vec<(Ty, u64)> {
        let mut v = vec![];
        self.leaves_into(0, &mut v);
        v
    }
    fn leaves_into(&self, off: u64, v: &mut Vec<(Ty, u64)>) {
        match self {
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves_into(off + i * t.size(), v);
                }
            }
            Ty::Struct(f, _) => {
                for (i, t) in f.iter().enumerate() {
                    t.leaves_into(off + self.field_off(i), v);
                }
            }
            Ty::Void => {}
            t => v.push((t.clone(), off)),
        }
    }
    pub fn nleaves(&self) -> usize {
        match self {
            Ty::Arr(n, t) => *n as usize * t.nleaves(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            Ty::Void => 0,
            _ => 1,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(b) => b * 8,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(u64),
    /// flattened constant aggregate
    Agg(Rc<Vec<u64>>),
    None,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Same,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
    /// inline assembly or similar
    Bad,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, u32, Opd, Opd),
    ICmp(Pred, u32, u32, Opd, Opd),
    Cast(CastOp, u32, u32, u32, Opd),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u32, u64)>),
    Alloca(u32, u64),
    Select(u32, Ty, Opd, Opd, Opd),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opd)>, Option<u32>),
    Extract(u32, Opd, usize, usize, bool),
    Insert(u32, Opd, usize, usize, usize, Opd),
    Freeze(u32, Opd),
    AtomicRmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u64, u32)>),
    Ret(Opd),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<I>,
    pub name: String,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub ret: Ty,
}

pub struct FDecl {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub defined: bool,
    pub noreturn: bool,
}

pub struct GDecl {
    pub name: String,
    pub text: &'static str,
    pub constant: bool,
    pub external: bool,
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const DYN_BASE: u64 = 0x2000_0000;

pub struct Module {
    pub lines: Vec<&'static str>,
    pub funcs: Vec<FDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GDecl>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, &'static str>,
    pub aliases: HashMap<String, String>,
    parsed: HashMap<u32, Rc<Func>>,
    ginit: HashMap<u32, Rc<Vec<u8>>>,
}

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(&'static str),
    Glob(String),
    Loc(String),
    Num(i128),
    FloatNum,
    Str(Vec<u8>),
    P(char),
    Meta,
    AttrRef(u32),
    Label(String),
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // b[i] == '"'
    i += 1;
    let mut out = vec![];
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            out.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

pub fn lex(s: &'static str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'@' | b'%' => {
                let name;
                if b[i + 1] == b'"' {
                    let (q, e) = quoted(b, i + 1);
                    name = String::from_utf8_lossy(&q).into_owned();
                    i = e;
                } else {
                    let st = i + 1;
                    i += 1;
                    while i < b.len() && is_idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                v.push(if c == b'@' { Tok::Glob(name) } else { Tok::Loc(name) });
            }
            b'"' => {
                let (q, e) = quoted(b, i);
                i = e;
                if i < b.len() && b[i] == b':' {
                    i += 1;
                    v.push(Tok::Label(String::from_utf8_lossy(&q).into_owned()));
                } else {
                    v.push(Tok::Str(q));
                }
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (q, e) = quoted(b, i + 1);
                i = e;
                v.push(Tok::Str(q));
            }
            b'!' => {
                i += 1;
                while i < b.len() && is_idc(b[i]) {
                    i += 1;
                }
                v.push(Tok::Meta);
            }
            b'#' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                v.push(Tok::AttrRef(s[st..i].parse().unwrap_or(u32::MAX)));
            }
            b'0'..=b'9' | b'-' => {
                let st = i;
                i += 1;
                while i < b.len() && (is_idc(b[i]) || (b[i] == b'+' && b[i - 1] == b'e')) {
                    i += 1;
                }
                let t = &s[st..i];
                if i < b.len() && b[i] == b':' {
                    i += 1;
                    v.push(Tok::Label(t.to_string()));
                } else if let Ok(n) = t.parse::<i128>() {
                    v.push(Tok::Num(n));
                } else if let Ok(n) = t.parse::<u128>() {
                    v.push(Tok::Num(n as i128));
                } else {
                    v.push(Tok::FloatNum);
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && is_idc(b[i]) {
                    i += 1;
                }
                if i < b.len() && b[i] == b':' && (i + 1 >= b.len() || b[i + 1] != b':') {
                    v.push(Tok::Label(s[st..i].to_string()));
                    i += 1;
                } else {
                    v.push(Tok::Id(&s[st..i]));
                }
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct Cur<'a> {
    t: &'a [Tok],
    i: usize,
}

impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if *x == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {:?} at {:?}", c, &self.t[self.i..(self.i + 8).min(self.t.len())]);
        }
    }
    fn skip_paren(&mut self) {
        self.exp_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(n) => n,
            t => panic!("expected number, got {:?}", t),
        }
    }
}

const VALWORDS: &[&str] = &[
    "true",
    "false",
    "null",
    "undef",
    "poison",
    "zeroinitializer",
    "none",
    "getelementptr",
    "inttoptr",
    "ptrtoint",
    "sub",
    "add",
    "trunc",
    "blockaddress",
    "bitcast",
    "xor",
    "icmp",
    "asm",
];

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
}

fn unquote_name(s: &str) -> String {
    if s.starts_with('"') {
        let (q, _) = quoted(s.as_bytes(), 0);
        String::from_utf8_lossy(&q).into_owned()
    } else {
        s.to_string()
    }
}

fn name_after_at(line: &str, at: usize) -> String {
    let b = line.as_bytes();
    if b[at + 1] == b'"' {
        let (q, _) = quoted(b, at + 1);
        String::from_utf8_lossy(&q).into_owned()
    } else {
        let mut e = at + 1;
        while e < b.len() && is_idc(b[e]) {
            e += 1;
        }
        line[at + 1..e].to_string()
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines: vec![],
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
            parsed: HashMap::new(),
            ginit: HashMap::new(),
        };
        let mut noret: std::collections::HashSet<u32> = Default::default();
        for l in &lines {
            if l.starts_with("attributes #") {
                let rest = &l[12..];
                let e = rest.find(' ').unwrap();
                let n: u32 = rest[..e].parse().unwrap();
                if rest.contains(" noreturn") {
                    noret.insert(n);
                }
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                let name = name_after_at(l, 0);
                let eq = l.find(" = ").unwrap();
                // careful with quoted names containing " = "
                let eq = if l.as_bytes()[1] == b'"' {
                    let (_, e) = quoted(l.as_bytes(), 1);
                    e
                } else {
                    eq
                };
                let rest = &l[eq + 3..];
                let words: Vec<&str> = rest.split(' ').take(12).collect();
                if words.contains(&"alias") {
                    let at = rest.rfind('@').unwrap();
                    m.aliases.insert(name, name_after_at(rest, at));
                } else {
                    let constant = words.iter().position(|w| *w == "constant");
                    let global = words.iter().position(|w| *w == "global");
                    let is_const = match (constant, global) {
                        (Some(_), None) => true,
                        (Some(a), Some(b)) => a < b,
                        _ => false,
                    };
                    let external = words[0] == "external" || words[0] == "extern_weak";
                    let id = m.globals.len() as u32;
                    m.gmap.insert(name.clone(), id);
                    m.globals.push(GDecl {
                        name,
                        text: rest,
                        constant: is_const,
                        external,
                    });
                }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let defined = l.starts_with("define ");
                let at = l.find('@').unwrap();
                let name = name_after_at(l, at);
                let start = i;
                if defined {
                    while lines[i] != "}" {
                        i += 1;
                    }
                }
                // attribute references after the parameter list
                let nr = l
                    .rsplit(')')
                    .next()
                    .unwrap_or("")
                    .split(' ')
                    .filter_map(|w| w.strip_prefix('#'))
                    .filter_map(|w| w.parse::<u32>().ok())
                    .any(|n| noret.contains(&n));
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FDecl {
                    name,
                    start,
                    end: i,
                    defined,
                    noreturn: nr,
                });
            } else if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    m.types.insert(unquote_name(&l[1..p]), &l[p + 8..]);
                }
            }
            i += 1;
        }
        m.lines = lines;
        m
    }

    pub fn func_id(&self, name: &str) -> Option<u32> {
        if let Some(&f) = self.fmap.get(name) {
            return Some(f);
        }
        self.aliases.get(name).and_then(|a| self.fmap.get(a)).copied()
    }
    pub fn addr_of(&self, name: &str) -> u64 {
        if let Some(&g) = self.gmap.get(name) {
            return ((g as u64) + 1) << 32;
        }
        if let Some(f) = self.func_id(name) {
            return (FUNC_BASE + f as u64) << 32;
        }
        panic!("unknown symbol @{}", name);
    }

    fn ty(&self, c: &mut Cur) -> Ty {
        let t = match c.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => Ty::Ptr,
            Tok::Id("float") => Ty::Float(4),
            Tok::Id("double") => Ty::Float(8),
            Tok::Id("half") => Ty::Float(2),
            Tok::Id("fp128") | Tok::Id("x86_fp80") => Ty::Float(16),
            Tok::Id("label") | Tok::Id("metadata") | Tok::Id("token") | Tok::Id("opaque") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {}", s))),
            Tok::P('[') => {
                let n = c.num() as u64;
                assert!(c.eat_id("x"));
                let t = self.ty(c);
                c.exp_p(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !c.eat_p('}') {
                    f.push(self.ty(c));
                    c.eat_p(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if c.eat_p('{') {
                    let mut f = vec![];
                    while !c.eat_p('}') {
                        f.push(self.ty(c));
                        c.eat_p(',');
                    }
                    c.exp_p('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    while !c.eat_p('>') {
                        c.next();
                    }
                    Ty::Other
                }
            }
            Tok::Loc(n) => {
                let t = self.types.get(&n).copied().expect("named type");
                let toks = lex(t);
                let mut cc = Cur { t: &toks, i: 0 };
                self.ty(&mut cc)
            }
            t => panic!("type expected, got {:?}", t),
        };
        t
    }
    fn attrs(&self, c: &mut Cur) {
        loop {
            match c.peek() {
                Some(Tok::Id(s)) if !VALWORDS.contains(s) => {
                    let s = *s;
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_paren();
                    } else if s == "align" {
                        c.num();
                    }
                }
                Some(Tok::Str(_)) => {
                    c.i += 1;
                    if c.eat_p('=') {
                        c.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn konst(&self, ty: &Ty, n: i128) -> u64 {
        let w = ty.bits();
        let v = n as u64;
        if w >= 64 {
            v
        } else {
            v & ((1u64 << w) - 1)
        }
    }
    /// constant expression evaluated to a number
    fn cexpr(&self, c: &mut Cur) -> u64 {
        match c.next() {
            Tok::Id("getelementptr") => {
                while let Some(Tok::Id(_)) = c.peek() {
                    c.i += 1;
                    if c.is_p('(') && matches!(c.t[c.i - 1], Tok::Id("inrange")) {
                        c.skip_paren();
                    }
                }
                c.exp_p('(');
                let ty = self.ty(c);
                c.exp_p(',');
                let pt = self.ty(c);
                let base = self.kval(c, &pt);
                let mut off = 0i64;
                let mut first = true;
                let mut cur = ty;
                while c.eat_p(',') {
                    let it = self.ty(c);
                    let k = self.kval(c, &it);
                    let k = crate::term::sx(k, it.bits().min(64) as u8);
                    if first {
                        off += k * cur.size() as i64;
                        first = false;
                    } else {
                        off += match &cur {
                            Ty::Arr(_, t) => k * t.size() as i64,
                            _ => cur.field_off(k as usize) as i64,
                        };
                        cur = cur.field(k as usize);
                    }
                }
                c.exp_p(')');
                base.wrapping_add(off as u64)
            }
            Tok::Id("inttoptr") | Tok::Id("ptrtoint") | Tok::Id("bitcast") => {
                c.exp_p('(');
                let t = self.ty(c);
                let v = self.kval(c, &t);
                assert!(c.eat_id("to"));
                let t2 = self.ty(c);
                c.exp_p(')');
                v & crate::term::mask(t2.bits().min(64) as u8)
            }
            Tok::Id("trunc") => {
                c.exp_p('(');
                let t = self.ty(c);
                let v = self.kval(c, &t);
                assert!(c.eat_id("to"));
                let t2 = self.ty(c);
                c.exp_p(')');
                v & crate::term::mask(t2.bits() as u8)
            }
            Tok::Id(op) if op == "sub" || op == "add" || op == "xor" => {
                while let Some(Tok::Id(_)) = c.peek() {
                    c.i += 1;
                }
                c.exp_p('(');
                let t = self.ty(c);
                let a = self.kval(c, &t);
                c.exp_p(',');
                let t2 = self.ty(c);
                let b = self.kval(c, &t2);
                c.exp_p(')');
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                };
                r & crate::term::mask(t.bits() as u8)
            }
            t => panic!("constant expression {:?}", t),
        }
    }
    fn kval(&self, c: &mut Cur, ty: &Ty) -> u64 {
        match c.peek().cloned() {
            Some(Tok::Num(n)) => {
                c.i += 1;
                self.konst(ty, n)
            }
            Some(Tok::FloatNum) => {
                c.i += 1;
                0
            }
            Some(Tok::Glob(g)) => {
                c.i += 1;
                self.addr_of(&g)
            }
            Some(Tok::Id("true")) => {
                c.i += 1;
                1
            }
            Some(Tok::Id("false")) | Some(Tok::Id("null")) | Some(Tok::Id("undef")) | Some(Tok::Id("poison"))
            | Some(Tok::Id("zeroinitializer")) | Some(Tok::Id("none")) => {
                c.i += 1;
                0
            }
            _ => self.cexpr(c),
        }
    }
    /// writes the constant of type ty into buf at off
    fn kinit(&self, c: &mut Cur, ty: &Ty, buf: &mut Vec<u8>, off: usize) {
        match ty {
            Ty::Int(w) if *w > 64 => match c.next() {
                Tok::Num(n) => {
                    for i in 0..ty.store_size() as usize {
                        buf[off + i] = (n >> (8 * i)) as u8;
                    }
                }
                Tok::Id(_) => {}
                t => panic!("wide constant {:?}", t),
            },
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let v = self.kval(c, ty);
                for i in 0..(ty.store_size() as usize).min(8) {
                    buf[off + i] = (v >> (8 * i)) as u8;
                }
            }
            _ => match c.next() {
                Tok::Id("zeroinitializer") | Tok::Id("undef") | Tok::Id("poison") => {}
                Tok::Str(s) => buf[off..off + s.len()].copy_from_slice(&s),
                Tok::P('[') => {
                    let mut k = 0;
                    while !c.eat_p(']') {
                        let t = self.ty(c);
                        self.kinit(c, &t, buf, off + k * t.size() as usize);
                        k += 1;
                        c.eat_p(',');
                    }
                }
                Tok::P('{') => {
                    let mut k = 0;
                    while !c.eat_p('}') {
                        let t = self.ty(c);
                        self.kinit(c, &t, buf, off + ty.field_off(k) as usize);
                        k += 1;
                        c.eat_p(',');
                    }
                }
                Tok::P('<') => {
                    c.exp_p('{');
                    let mut k = 0;
                    while !c.eat_p('}') {
                        let t = self.ty(c);
                        self.kinit(c, &t, buf, off + ty.field_off(k) as usize);
                        k += 1;
                        c.eat_p(',');
                    }
                    c.exp_p('>');
                }
                t => panic!("initialiser {:?} for {:?}", t, ty),
            },
        }
    }
    pub fn global_bytes(&mut self, id: u32) -> Rc<Vec<u8>> {
        if let Some(b) = self.ginit.get(&id) {
            return b.clone();
        }
        let g = &self.globals[id as usize];
        let text = g.text;
        let toks = lex(text);
        let mut c = Cur { t: &toks, i: 0 };
        while !(c.is_id("constant") || c.is_id("global")) {
            c.i += 1;
        }
        c.i += 1;
        let ty = self.ty(&mut c);
        let mut buf = vec![0u8; ty.size() as usize];
        if !g.external {
            self.kinit(&mut c, &ty, &mut buf, 0);
        }
        let r = Rc::new(buf);
        self.ginit.insert(id, r.clone());
        r
    }

    // ------------------------------------------------------------ functions
    fn opd(&self, c: &mut Cur, f: &mut FnCtx, ty: &Ty) -> Opd {
        match c.peek().cloned() {
            Some(Tok::Loc(n)) => {
                c.i += 1;
                Opd::Reg(f.reg(&n))
            }
            Some(Tok::Meta) => {
                c.i += 1;
                if c.is_p('(') {
                    c.skip_paren();
                } else if c.is_p('{') {
                    while !c.eat_p('}') {
                        c.i += 1;
                    }
                }
                Opd::None
            }
            _ => {
                if ty.is_agg() {
                    Opd::Agg(Rc::new(self.kagg(c, ty)))
                } else if let Ty::Int(w) = ty {
                    if *w > 64 {
                        match c.next() {
                            Tok::Num(n) => return Opd::Agg(Rc::new(vec![n as u64, (n >> 64) as u64])),
                            Tok::Id(_) => return Opd::Agg(Rc::new(vec![0, 0])),
                            t => panic!("wide operand {:?}", t),
                        }
                    }
                    Opd::K(self.kval(c, ty))
                } else if *ty == Ty::Other {
                    // vector or metadata constant: not supported, skip one token or balanced group
                    if c.eat_p('<') {
                        while !c.eat_p('>') {
                            c.i += 1;
                        }
                    } else {
                        c.i += 1;
                        if c.is_p('(') {
                            c.skip_paren();
                        }
                    }
                    Opd::None
                } else {
                    Opd::K(self.kval(c, ty))
                }
            }
        }
    }
    fn kagg(&self, c: &mut Cur, ty: &Ty) -> Vec<u64> {
        let mut out = vec![];
        match c.next() {
            Tok::Id(_) => out = vec![0; ty.nleaves()],
            Tok::P('{') | Tok::P('[') => loop {
                if c.eat_p('}') || c.eat_p(']') {
                    break;
                }
                let t = self.ty(c);
                if t.is_agg() {
                    out.extend(self.kagg(c, &t));
                } else {
                    out.push(self.kval(c, &t));
                }
                c.eat_p(',');
            },
            t => panic!("aggregate constant {:?}", t),
        }
        out
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = self.parsed.get(&id) {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(id));
        self.parsed.insert(id, f.clone());
        f
    }

    fn parse_func(&self, id: u32) -> Func {
        let d = &self.funcs[id as usize];
        assert!(d.defined, "function {} is not defined", d.name);
        let head = lex(self.lines[d.start]);
        let mut c = Cur { t: &head, i: 0 };
        let mut fx = FnCtx {
            regs: HashMap::new(),
            labels: HashMap::new(),
        };
        // return type: the last type before @name; skip linkage words and attributes
        let gpos = head.iter().position(|t| matches!(t, Tok::Glob(_))).unwrap();
        c.i = 1;
        let ret;
        loop {
            match c.peek() {
                Some(Tok::Id(s)) => {
                    let s = *s;
                    let isty = s == "void"
                        || s == "ptr"
                        || s == "float"
                        || s == "double"
                        || s == "half"
                        || s == "fp128"
                        || (s.starts_with('i') && s[1..].parse::<u32>().is_ok());
                    if isty {
                        ret = self.ty(&mut c);
                        break;
                    }
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_paren();
                    } else if s == "align" {
                        c.num();
                    }
                }
                Some(Tok::Str(_)) => c.i += 1,
                _ => {
                    ret = self.ty(&mut c);
                    break;
                }
            }
        }
        c.i = gpos + 1;
        c.exp_p('(');
        let mut params = vec![];
        let mut n = 0;
        while !c.eat_p(')') {
            if c.eat_p('.') || c.is_id("...") {
                c.i += 1;
                continue;
            }
            let t = self.ty(&mut c);
            self.attrs(&mut c);
            let nm = match c.peek().cloned() {
                Some(Tok::Loc(nm)) => {
                    c.i += 1;
                    nm
                }
                _ => n.to_string(),
            };
            params.push((fx.reg(&nm), t));
            n += 1;
            c.eat_p(',');
        }
        // body
        let mut blocks: Vec<Block> = vec![];
        let mut order: HashMap<u32, usize> = HashMap::new();
        let mut i = d.start + 1;
        let mut cur: Option<Block> = None;
        let mut cur_label = 0u32;
        // the entry block may be unnamed; its implicit name is the number of parameters
        let mut first = true;
        while i < d.end {
            let l = self.lines[i];
            i += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                let toks = lex(l);
                if let Some(Tok::Label(n)) = toks.first() {
                    if let Some(b) = cur.take() {
                        order.insert(cur_label, blocks.len());
                        blocks.push(b);
                    }
                    cur_label = fx.label(n);
                    cur = Some(Block {
                        phis: vec![],
                        ins: vec![],
                        name: n.clone(),
                    });
                    first = false;
                    continue;
                }
            }
            if first {
                let nm = n.to_string();
                cur_label = fx.label(&nm);
                cur = Some(Block {
                    phis: vec![],
                    ins: vec![],
                    name: nm,
                });
                first = false;
            }
            let mut full: &'static str = l;
            // multi-line instructions
            if t.starts_with("switch ") && !t.trim_end().ends_with(']') {
                let mut s = l.to_string();
                loop {
                    s.push(' ');
                    s.push_str(self.lines[i]);
                    i += 1;
                    if self.lines[i - 1].trim_start().starts_with(']') {
                        break;
                    }
                }
                full = Box::leak(s.into_boxed_str());
            } else {
                let mut extra = String::new();
                while i < d.end {
                    let nx = self.lines[i].trim_start();
                    if nx.starts_with("to label ") || nx.starts_with("cleanup") || nx.starts_with("catch ") || nx.starts_with("filter ") {
                        extra.push(' ');
                        extra.push_str(nx);
                        i += 1;
                    } else {
                        break;
                    }
                }
                if !extra.is_empty() {
                    full = Box::leak((l.to_string() + &extra).into_boxed_str());
                }
            }
            let toks = lex(full);
            let mut c = Cur { t: &toks, i: 0 };
            let b = cur.as_mut().unwrap();
            self.inst(&mut c, &mut fx, b, full);
        }
        if let Some(b) = cur.take() {
            order.insert(cur_label, blocks.len());
            blocks.push(b);
        }
        // labels -> block indices
        let lm = |l: u32| -> u32 { order[&l] as u32 };
        for b in blocks.iter_mut() {
            for p in b.phis.iter_mut() {
                for x in p.1.iter_mut() {
                    x.0 = lm(x.0);
                }
            }
            for ins in b.ins.iter_mut() {
                match ins {
                    I::Br(l) => *l = lm(*l),
                    I::CondBr(_, a, b) => {
                        *a = lm(*a);
                        *b = lm(*b);
                    }
                    I::Switch(_, _, d, v) => {
                        *d = lm(*d);
                        for x in v.iter_mut() {
                            x.1 = lm(x.1);
                        }
                    }
                    I::Call(_, _, _, _, Some(l)) => *l = lm(*l),
                    _ => {}
                }
            }
        }
        Func {
            id,
            name: d.name.clone(),
            params,
            nregs: fx.regs.len(),
            blocks,
            ret,
        }
    }

    fn tyopd(&self, c: &mut Cur, f: &mut FnCtx) -> (Ty, Opd) {
        let t = self.ty(c);
        self.attrs(c);
        let o = self.opd(c, f, &t);
        (t, o)
    }

    fn inst(&self, c: &mut Cur, f: &mut FnCtx, b: &mut Block, text: &'static str) {
        let mut dst = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (c.t.get(0), c.t.get(1)) {
            dst = Some(f.reg(n));
            c.i = 2;
        }
        let op = match c.next() {
            Tok::Id(s) => s,
            t => panic!("instruction {:?} in {}", t, text),
        };
        let bad = |b: &mut Block| b.ins.push(I::Unsupported(text.trim().to_string()));
        let binop = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(bo) = binop {
            while matches!(c.peek(), Some(Tok::Id("nuw" | "nsw" | "exact" | "disjoint"))) {
                c.i += 1;
            }
            let t = self.ty(c);
            if !matches!(t, Ty::Int(w) if w <= 64) {
                return bad(b);
            }
            let x = self.opd(c, f, &t);
            c.exp_p(',');
            let y = self.opd(c, f, &t);
            b.ins.push(I::Bin(bo, t.bits(), dst.unwrap(), x, y));
            return;
        }
        match op {
            "icmp" => {
                let p = loop {
                    let Tok::Id(s) = c.next() else { panic!() };
                    let p = match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => continue,
                    };
                    break p;
                };
                let t = self.ty(c);
                if !matches!(t, Ty::Int(w) if w <= 64) && t != Ty::Ptr {
                    return bad(b);
                }
                let x = self.opd(c, f, &t);
                c.exp_p(',');
                let y = self.opd(c, f, &t);
                b.ins.push(I::ICmp(p, t.bits(), dst.unwrap(), x, y));
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
                while matches!(c.peek(), Some(Tok::Id("nneg" | "nuw" | "nsw"))) {
                    c.i += 1;
                }
                let t = self.ty(c);
                if t == Ty::Other || t.is_agg() || t.bits() > 64 {
                    return bad(b);
                }
                let x = self.opd(c, f, &t);
                assert!(c.eat_id("to"));
                let t2 = self.ty(c);
                if t2 == Ty::Other || t2.is_agg() || t2.bits() > 64 {
                    return bad(b);
                }
                let k = match op {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    _ => {
                        if t.bits() < t2.bits() {
                            CastOp::ZExt
                        } else if t.bits() > t2.bits() {
                            CastOp::Trunc
                        } else {
                            CastOp::Same
                        }
                    }
                };
                b.ins.push(I::Cast(k, t.bits(), t2.bits(), dst.unwrap(), x));
            }
            "load" => {
                while matches!(c.peek(), Some(Tok::Id("atomic" | "volatile"))) {
                    c.i += 1;
                }
                let t = self.ty(c);
                if t == Ty::Other {
                    return bad(b);
                }
                c.exp_p(',');
                let (_, p) = self.tyopd(c, f);
                b.ins.push(I::Load(dst.unwrap(), t, p));
            }
            "store" => {
                while matches!(c.peek(), Some(Tok::Id("atomic" | "volatile"))) {
                    c.i += 1;
                }
                let t = self.ty(c);
                if t == Ty::Other {
                    return bad(b);
                }
                let v = self.opd(c, f, &t);
                c.exp_p(',');
                let (_, p) = self.tyopd(c, f);
                b.ins.push(I::Store(t, v, p));
            }
            "getelementptr" => {
                while matches!(c.peek(), Some(Tok::Id("inbounds" | "nuw" | "nusw"))) {
                    c.i += 1;
                }
                let ty = self.ty(c);
                c.exp_p(',');
                let pt = self.ty(c);
                if pt != Ty::Ptr {
                    return bad(b);
                }
                let base = self.opd(c, f, &pt);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = ty;
                let mut first = true;
                while c.eat_p(',') {
                    if let Some(Tok::Meta) = c.peek() {
                        break;
                    }
                    let it = self.ty(c);
                    if it == Ty::Other {
                        return bad(b);
                    }
                    let o = self.opd(c, f, &it);
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Arr(_, t) => scale = t.size(),
                            _ => {
                                if let Opd::K(k) = o {
                                    off = off.wrapping_add(cur.field_off(k as usize));
                                    cur = cur.field(k as usize);
                                    continue;
                                }
                                panic!("gep struct index");
                            }
                        }
                        cur = cur.field(0);
                    }
                    match o {
                        Opd::K(k) => {
                            let k = crate::term::sx(k, it.bits() as u8);
                            off = off.wrapping_add((k as u64).wrapping_mul(scale));
                        }
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                b.ins.push(I::Gep(dst.unwrap(), base, off, idx));
            }
            "alloca" => {
                let t = self.ty(c);
                let mut n = 1u64;
                if c.eat_p(',') {
                    if !c.is_id("align") {
                        if let Some(Tok::Id(_)) = c.peek() {
                            let it = self.ty(c);
                            match self.opd(c, f, &it) {
                                Opd::K(k) => n = k,
                                _ => return bad(b),
                            }
                        }
                    }
                }
                b.ins.push(I::Alloca(dst.unwrap(), t.size() * n));
            }
            "select" => {
                let (ct, cv) = self.tyopd(c, f);
                if ct != Ty::Int(1) {
                    return bad(b);
                }
                c.exp_p(',');
                let (t, x) = self.tyopd(c, f);
                c.exp_p(',');
                let (_, y) = self.tyopd(c, f);
                if t == Ty::Other {
                    return bad(b);
                }
                b.ins.push(I::Select(dst.unwrap(), t, cv, x, y));
            }
            "phi" => {
                let t = self.ty(c);
                let mut v = vec![];
                loop {
                    c.exp_p('[');
                    let o = self.opd(c, f, &t);
                    c.exp_p(',');
                    let Tok::Loc(l) = c.next() else { panic!() };
                    let l = f.label(&l);
                    c.exp_p(']');
                    v.push((l, o));
                    if !c.eat_p(',') || !c.is_p('[') {
                        break;
                    }
                }
                b.phis.push((dst.unwrap(), v));
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op != "call" && op != "invoke" {
                    assert!(c.eat_id("call"));
                }
                let invoke = op == "invoke";
                // calling convention, return attributes
                let rty;
                loop {
                    match c.peek() {
                        Some(Tok::Id(s)) => {
                            let s = *s;
                            let isty = s == "void"
                                || s == "ptr"
                                || s == "float"
                                || s == "double"
                                || s == "half"
                                || s == "fp128"
                                || (s.starts_with('i') && s[1..].parse::<u32>().is_ok());
                            if isty {
                                rty = self.ty(c);
                                break;
                            }
                            c.i += 1;
                            if c.is_p('(') {
                                c.skip_paren();
                            } else if s == "align" {
                                c.num();
                            }
                        }
                        _ => {
                            rty = self.ty(c);
                            break;
                        }
                    }
                }
                if c.is_p('(') {
                    // function type of a variadic callee
                    c.skip_paren();
                }
                let callee = match c.next() {
                    Tok::Glob(g) => match self.func_id(&g) {
                        Some(f) => Callee::Func(f),
                        None => Callee::Bad,
                    },
                    Tok::Loc(n) => Callee::Ind(Opd::Reg(f.reg(&n))),
                    _ => return bad(b),
                };
                c.exp_p('(');
                let mut args = vec![];
                while !c.eat_p(')') {
                    let t = self.ty(c);
                    if t == Ty::Other && matches!(c.peek(), Some(Tok::Meta)) {
                        c.i += 1;
                        if c.is_p('(') {
                            c.skip_paren();
                        }
                        c.eat_p(',');
                        continue;
                    }
                    self.attrs(c);
                    let o = self.opd(c, f, &t);
                    args.push((t, o));
                    c.eat_p(',');
                }
                let mut cont = None;
                if invoke {
                    while !c.is_id("to") {
                        c.i += 1;
                    }
                    c.i += 2;
                    let Tok::Loc(l) = c.next() else { panic!() };
                    cont = Some(f.label(&l));
                    // the unwind label still needs a number
                    while let Some(t) = c.peek().cloned() {
                        c.i += 1;
                        if let Tok::Loc(l) = t {
                            f.label(&l);
                        }
                    }
                }
                b.ins.push(I::Call(dst, rty, callee, args, cont));
            }
            "extractvalue" => {
                let (t, o) = self.tyopd(c, f);
                let mut start = 0;
                let mut cur = t;
                while c.eat_p(',') {
                    if let Some(Tok::Meta) = c.peek() {
                        break;
                    }
                    let k = c.num() as usize;
                    for j in 0..k {
                        start += cur.field(j).nleaves();
                    }
                    cur = cur.field(k);
                }
                b.ins.push(I::Extract(dst.unwrap(), o, start, cur.nleaves(), cur.is_agg()));
            }
            "insertvalue" => {
                let (t, o) = self.tyopd(c, f);
                let total = t.nleaves();
                c.exp_p(',');
                let (_, v) = self.tyopd(c, f);
                let mut start = 0;
                let mut cur = t;
                while c.eat_p(',') {
                    if let Some(Tok::Meta) = c.peek() {
                        break;
                    }
                    let k = c.num() as usize;
                    for j in 0..k {
                        start += cur.field(j).nleaves();
                    }
                    cur = cur.field(k);
                }
                b.ins.push(I::Insert(dst.unwrap(), o, total, start, cur.nleaves(), v));
            }
            "freeze" => {
                let (_, o) = self.tyopd(c, f);
                b.ins.push(I::Freeze(dst.unwrap(), o));
            }
            "br" => {
                if c.eat_id("label") {
                    let Tok::Loc(l) = c.next() else { panic!() };
                    b.ins.push(I::Br(f.label(&l)));
                } else {
                    let (_, o) = self.tyopd(c, f);
                    c.exp_p(',');
                    c.i += 1;
                    let Tok::Loc(l1) = c.next() else { panic!() };
                    c.exp_p(',');
                    c.i += 1;
                    let Tok::Loc(l2) = c.next() else { panic!() };
                    let (a, d) = (f.label(&l1), f.label(&l2));
                    b.ins.push(I::CondBr(o, a, d));
                }
            }
            "switch" => {
                let (t, o) = self.tyopd(c, f);
                c.exp_p(',');
                c.i += 1;
                let Tok::Loc(l) = c.next() else { panic!() };
                let d = f.label(&l);
                c.exp_p('[');
                let mut v = vec![];
                while !c.eat_p(']') {
                    let it = self.ty(c);
                    let k = self.kval(c, &it);
                    c.exp_p(',');
                    c.i += 1;
                    let Tok::Loc(l) = c.next() else { panic!() };
                    v.push((k, f.label(&l)));
                }
                b.ins.push(I::Switch(t.bits(), o, d, v));
            }
            "ret" => {
                let t = self.ty(c);
                if t == Ty::Void {
                    b.ins.push(I::Ret(Opd::None));
                } else {
                    let o = self.opd(c, f, &t);
                    b.ins.push(I::Ret(o));
                }
            }
            "unreachable" => b.ins.push(I::Unreachable),
            "fence" => b.ins.push(I::Nop),
            "atomicrmw" => {
                c.eat_id("volatile");
                let Tok::Id(k) = c.next() else { panic!() };
                let (_, p) = self.tyopd(c, f);
                c.exp_p(',');
                let (t, v) = self.tyopd(c, f);
                b.ins.push(I::AtomicRmw(dst.unwrap(), k.to_string(), t, p, v));
            }
            "cmpxchg" => {
                while matches!(c.peek(), Some(Tok::Id("weak" | "volatile"))) {
                    c.i += 1;
                }
                let (_, p) = self.tyopd(c, f);
                c.exp_p(',');
                let (t, x) = self.tyopd(c, f);
                c.exp_p(',');
                let (_, y) = self.tyopd(c, f);
                b.ins.push(I::CmpXchg(dst.unwrap(), t, p, x, y));
            }
            _ => bad(b),
        }
    }
}
