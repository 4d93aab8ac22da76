//! Reference model of UAX #15, written from the standard, over the reference data.
use super::api::*;
pub use super::CAP;

#[derive(Clone, Copy)]
pub struct Txt {
    pub v: [u32; CAP],
    pub n: usize,
}
impl Txt {
    #[inline(always)]
    pub fn new() -> Txt {
        Txt { v: [0; CAP], n: 0 }
    }
    #[inline(always)]
    pub fn of(s: &[u32]) -> Txt {
        let mut t = Txt::new();
        for &c in s {
            t.push(c);
        }
        t
    }
    #[inline(always)]
    pub fn push(&mut self, c: u32) {
        self.v[self.n] = c;
        self.n += 1;
    }
    #[inline(always)]
    pub fn add(&mut self, s: &[u32]) {
        for &c in s {
            self.push(c);
        }
    }
    /// text as characters
    #[inline(never)]
    pub fn chars(&self) -> Chs {
        let mut v = ['\0'; CAP];
        let mut i = 0;
        while i < self.n {
            v[i] = chr(self.v[i]);
            i += 1;
        }
        Chs { v, n: self.n }
    }
    #[inline(always)]
    pub fn s(&self) -> &[u32] {
        &self.v[..self.n]
    }
}

#[derive(Clone, Copy)]
pub struct Chs {
    pub v: [char; CAP],
    pub n: usize,
}
impl Chs {
    #[inline(always)]
    pub fn s(&self) -> &[char] {
        &self.v[..self.n]
    }
    #[inline(always)]
    pub fn it(&self) -> core::iter::Copied<core::slice::Iter<'_, char>> {
        self.v[..self.n].iter().copied()
    }
}

/// text in UTF-8
pub struct Utf8 {
    pub b: [u8; 4 * CAP],
    pub n: usize,
}
impl Utf8 {
    #[inline(never)]
    pub fn of(t: &[u32]) -> Utf8 {
        let mut u = Utf8 { b: [0; 4 * CAP], n: 0 };
        for &c in t {
            if c < 0x80 {
                u.put(c);
            } else if c < 0x800 {
                u.put(0xC0 | c >> 6);
                u.put(0x80 | c & 0x3F);
            } else if c < 0x10000 {
                u.put(0xE0 | c >> 12);
                u.put(0x80 | c >> 6 & 0x3F);
                u.put(0x80 | c & 0x3F);
            } else {
                u.put(0xF0 | c >> 18);
                u.put(0x80 | c >> 12 & 0x3F);
                u.put(0x80 | c >> 6 & 0x3F);
                u.put(0x80 | c & 0x3F);
            }
        }
        u
    }
    #[inline(always)]
    fn put(&mut self, x: u32) {
        self.b[self.n] = x as u8;
        self.n += 1;
    }
    #[inline(always)]
    pub fn str(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
}

#[inline(always)]
pub fn same(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// normalization form of s: form D or KD, composed or not
#[inline(always)]
pub fn norm(form: u32, comp: bool, s: &[u32]) -> Txt {
    let d = decompose(form, s);
    if comp {
        compose(&d)
    } else {
        d
    }
}

/// leading non-starters, trailing non-starters and length of the full compatibility decomposition
#[inline(always)]
pub fn ns(c: u32) -> (u32, u32, u32) {
    let l = r_len(KD, c);
    if l == 0 {
        let k = (r_ccc(c) != 0) as u32;
        return (k, k, 1);
    }
    let mut lead = 0;
    while lead < l && r_ccc(r_at(KD, c, lead)) != 0 {
        lead += 1;
    }
    let mut trail = 0;
    while trail < l && r_ccc(r_at(KD, c, l - 1 - trail)) != 0 {
        trail += 1;
    }
    (lead, trail, l)
}
/// Stream-Safe Text Process (UAX15-D4)
#[inline(never)]
pub fn stream_safe(s: &[u32]) -> Txt {
    let mut t = Txt::new();
    let mut count = 0;
    for &c in s {
        let (lead, trail, len) = ns(c);
        if count + lead > 30 {
            t.push(0x34F);
            count = 0;
        }
        if lead == len {
            count += len;
        } else {
            count = trail;
        }
        t.push(c);
    }
    t
}
/// longest run of non-starters in the compatibility decomposition
#[inline(never)]
pub fn longest_run(s: &[u32]) -> u32 {
    let mut best = 0;
    let mut run = 0;
    for &c in s {
        let l = r_len(KD, c);
        let mut i = 0;
        loop {
            let d = if l == 0 { c } else { r_at(KD, c, i) };
            if r_ccc(d) != 0 {
                run += 1;
                if run > best {
                    best = run;
                }
            } else {
                run = 0;
            }
            i += 1;
            if i >= l {
                break;
            }
        }
    }
    best
}

/// full decomposition in canonical order
#[inline(never)]
pub fn decompose(form: u32, s: &[u32]) -> Txt {
    let mut t = Txt::new();
    let mut cc = [0u32; CAP];
    for &c in s {
        let l = r_len(form, c);
        if l == 0 {
            insert(&mut t, &mut cc, c);
        } else {
            let mut i = 0;
            while i < l {
                insert(&mut t, &mut cc, r_at(form, c, i));
                i += 1;
            }
        }
    }
    t
}
/// append c, then move it before the non-starters of greater class (stable insertion sort)
#[inline(always)]
fn insert(t: &mut Txt, cc: &mut [u32; CAP], c: u32) {
    let k = r_ccc(c);
    let mut j = t.n;
    t.push(c);
    cc[j] = k;
    if k == 0 {
        return;
    }
    while j > 0 && cc[j - 1] > k {
        t.v[j] = t.v[j - 1];
        cc[j] = cc[j - 1];
        t.v[j - 1] = c;
        cc[j - 1] = k;
        j -= 1;
    }
}
/// canonical composition of a canonically ordered text
#[inline(never)]
pub fn compose(d: &Txt) -> Txt {
    let mut t = Txt::new();
    let mut starter: usize = usize::MAX;
    let mut last = 0u32;
    let mut i = 0;
    while i < d.n {
        let c = d.v[i];
        let k = r_ccc(c);
        i += 1;
        if starter != usize::MAX && (t.n == starter + 1 || last < k) {
            let p = r_pair(t.v[starter], c);
            if p != 0 {
                t.v[starter] = p;
                continue;
            }
        }
        if k == 0 {
            starter = t.n;
        }
        last = k;
        t.push(c);
    }
    t
}
