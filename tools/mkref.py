#!/usr/bin/env python3
"""Builds /verif/refdata/refdata.txt: the Unicode 16.0 facts the checks compare the crate with.

None of it comes from /repo/src. Sources (all installed in the sandbox):
  * regex-syntax 0.8.11 (generated from UCD 16.0.0): age and general category -> which code points
    are assigned in 16.0, which are marks, surrogates, private use
  * node 22 / ICU 78 String.prototype.normalize (Unicode 17; normalization is stable, so every
    character assigned in 16.0 has the same forms): full decompositions, primary composites
  * golang x/text/unicode/norm tables17.0.0 (vendored in go1.27): combining classes
  * unicode-normalization 0.1.25 from crates.io: CJK standardized variation sequences (checked here
    against the canonical decompositions and the ordering rule of StandardizedVariants.txt)
Cross-checked against python unicodedata (15.0) for every character assigned there.
usage: mkref.py NODE_DUMP GO_DUMP REGEX_SYNTAX_DIR UN_0_1_25_DIR OUT   (see /verif/refdata/README)
"""
import sys, re, unicodedata
node, go, rx, un, out = sys.argv[1:6]

def esc(s):
    m = re.fullmatch(r"\\u\{([0-9a-fA-F]+)\}", s)
    if m: return int(m.group(1), 16)
    m = {"\\0": 0, "\\t": 9, "\\n": 10, "\\r": 13, "\\\\": 92, "\\'": 39, '\\"': 34}.get(s)
    if m is not None: return m
    m = re.fullmatch(r"\\x([0-9a-fA-F]{2})", s)
    if m: return int(m.group(1), 16)
    assert len(s) == 1, s
    return ord(s)

def tables(path):
    t = open(path, encoding="utf8").read()
    res = {}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", t, re.S):
        rs = []
        for a, b in re.findall(r"\('((?:\\u\{[^}]*\}|\\.|[^'\\])+)',\s*'((?:\\u\{[^}]*\}|\\.|[^'\\])+)'\)", m.group(2)):
            rs.append((esc(a), esc(b)))
        res[m.group(1)] = rs
    return res

age = tables(rx + "/src/unicode_tables/age.rs")
gc = tables(rx + "/src/unicode_tables/general_category.rs")
assert "V16_0" in age and "V17_0" not in age
def cps(rs):
    s = set()
    for a, b in rs:
        s.update(range(a, b + 1))
    return s
aged = set()
for k in age:
    aged |= cps(age[k])
mark = cps(gc["MARK"])
unassigned = cps(gc["UNASSIGNED"])
private = cps(gc["PRIVATE_USE"])
ALL = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF]
assigned = [c for c in ALL if c not in unassigned]
aset = set(assigned)
public = set(c for c in assigned if c not in private)
# age also covers noncharacters
assert aset <= aged
assert len(public) == 155063, len(public)

nfd, nfkd, nfc, nfkc = {}, {}, {}, {}
for l in open(node):
    c, a, b, d, e, m, cn = l.rstrip("\n").split("|")
    c = int(c, 16)
    P = lambda s: tuple(int(x, 16) for x in s.split())
    nfd[c], nfkd[c], nfc[c], nfkc[c] = P(a), P(b), P(d), P(e)
    if c not in aset:
        # not assigned in 16.0: no decomposition in 16.0
        nfd[c] = nfkd[c] = nfc[c] = nfkc[c] = (c,)
    else:
        assert all(x in aset for x in nfd[c] + nfkd[c]), hex(c)
        assert (m == "1") == (c in mark), hex(c)

ccc = {}
for l in open(go):
    if l.startswith("version"):
        assert "17.0.0" in l
        continue
    f = l.split()
    c, v, has = int(f[0]), int(f[1]), f[2] == "1"
    if c not in aset:
        v = 0
    if has and c in aset:
        # class of the first rune of the decomposition is reported: use python 15.0; characters
        # that decompose and are newer than 15.0 are all starters
        if unicodedata.category(chr(c)) != "Cn":
            v = unicodedata.combining(chr(c))
        else:
            v = 0
    ccc[c] = v

S = lambda c: 0xAC00 <= c < 0xAC00 + 11172
n = 0
for c in ALL:
    ch = chr(c)
    if unicodedata.category(ch) in ("Cn", "Cs"):
        continue
    n += 1
    assert unicodedata.combining(ch) == ccc[c], (hex(c), ccc[c], unicodedata.combining(ch))
    assert tuple(map(ord, unicodedata.normalize("NFD", ch))) == nfd[c], hex(c)
    assert tuple(map(ord, unicodedata.normalize("NFKD", ch))) == nfkd[c], hex(c)
    assert tuple(map(ord, unicodedata.normalize("NFC", ch))) == nfc[c], hex(c)
    assert tuple(map(ord, unicodedata.normalize("NFKC", ch))) == nfkc[c], hex(c)
    assert (unicodedata.category(ch)[0] == "M") == (c in mark), hex(c)
print("cross-checked", n, "characters with python", unicodedata.unidata_version)

# primary composites (non-Hangul): c is its own NFC and has a canonical decomposition
pairs = {}
inv = {}
for c in ALL:
    if nfd[c] != (c,) and nfc[c] == (c,) and not S(c):
        inv[nfd[c]] = c
for c in sorted(inv.values()):
    d = nfd[c]
    b = d[-1]
    head = d[:-1]
    a = head[0] if len(head) == 1 else inv.get(head)
    assert a is not None, hex(c)
    pairs[(a, b)] = c
    if unicodedata.category(chr(c)) != "Cn":
        dd = unicodedata.decomposition(chr(c)).split()
        assert [int(x, 16) for x in dd] == [a, b], hex(c)
print("primary composites", len(pairs))

cjk = {}
t = open(un + "/src/tables.rs", encoding="utf8").read()
chars = re.search(r"CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS: &\[char\] = &\[(.*?)\];", t, re.S).group(1)
chars = [int(x, 16) for x in re.findall(r"'\\u\{([0-9A-Fa-f]+)\}'", chars)]
kv = re.search(r"CJK_COMPAT_VARIANTS_DECOMPOSED_KV: &\[\(u32, \(u16, u16\)\)\] = &\[(.*?)\];", t, re.S).group(1)
for k, o, l in re.findall(r"\((0x[0-9A-Fa-f]+), \((0x[0-9A-Fa-f]+), (0x[0-9A-Fa-f]+)\)\)", kv):
    k, o, l = int(k, 16), int(o, 16), int(l, 16)
    cjk[k] = tuple(chars[o:o + l])
per = {}
for c in sorted(cjk):
    d = cjk[c]
    assert len(d) == 2 and (d[0],) == nfd[c] and 0xFE00 <= d[1] <= 0xFE02, hex(c)
    per.setdefault(d[0], []).append(d[1])
for b, v in per.items():
    assert v == [0xFE00 + i for i in range(len(v))], (hex(b), v)
# exactly the compatibility ideographs that decompose canonically
want = {c for c in list(range(0xF900, 0xFB00)) + list(range(0x2F800, 0x2FA20)) if c in aset and nfd[c] != (c,) and c < 0xFADA or 0x2F800 <= c <= 0x2FA1D}
assert set(cjk) == want, (sorted(map(hex, set(cjk) ^ want)))
print("cjk", len(cjk))

# quick-check values, from the definitions in UAX #15 / DerivedNormalizationProps
second = {b for (a, b) in pairs} | set(range(0x1161, 0x1176)) | set(range(0x11A8, 0x11C3))
def qc(c, dec, comp, k):
    if comp:
        if comp[c] != (c,):
            return 1
        # UAX #15 (since Unicode 16.0): also when its decomposition begins with such a character
        return 2 if c in second or nfd[c][0] in second else 0
    return 1 if dec[c] != (c,) else 0
qcs = {0: {}, 1: {}, 2: {}, 3: {}}
for c in ALL:
    qcs[0][c] = qc(c, nfd, nfc, 0)      # NFC
    qcs[1][c] = qc(c, nfkd, nfkc, 0)    # NFKC
    qcs[2][c] = qc(c, nfd, None, 0)     # NFD
    qcs[3][c] = qc(c, nfkd, None, 0)    # NFKD

def ranges(f, dflt):
    r = []
    for c in range(0x110000):
        v = dflt if 0xD800 <= c <= 0xDFFF else f(c)
        if r and r[-1][2] == v:
            r[-1][1] = c
        else:
            r.append([c, c, v])
    return [x for x in r if x[2] != dflt]

with open(out, "w") as f:
    f.write("# Unicode 16.0 reference data; generated by tools/mkref.py, see its header for provenance\n")
    for a, b, v in ranges(lambda c: ccc[c], 0):
        f.write(f"ccc {a:x} {b:x} {v}\n")
    for c in ALL:
        if nfd[c] != (c,) and not S(c):
            f.write(f"dec {c:x} " + " ".join(f"{x:x}" for x in nfd[c]) + "\n")
    for c in ALL:
        if nfkd[c] != (c,) and not S(c):
            f.write(f"kdec {c:x} " + " ".join(f"{x:x}" for x in nfkd[c]) + "\n")
    for (a, b), c in sorted(pairs.items()):
        f.write(f"pair {a:x} {b:x} {c:x}\n")
    for c in sorted(cjk):
        f.write(f"cjk {c:x} " + " ".join(f"{x:x}" for x in cjk[c]) + "\n")
    props = [lambda c: int(c in mark), lambda c: int(c in public)] + [(lambda c, k=k: qcs[k][c]) for k in range(4)]
    for k, p in enumerate(props):
        for a, b, v in ranges(p, 0):
            f.write(f"prop {k} {a:x} {b:x} {v}\n")
print("public assigned", len(public), "marks", len(mark), "ccc!=0", sum(1 for c in ALL if ccc[c]))
for k, nme in enumerate(["NFC", "NFKC", "NFD", "NFKD"]):
    print(nme, "no", sum(v == 1 for v in qcs[k].values()), "maybe", sum(v == 2 for v in qcs[k].values()))
