import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","NFD and NFKD output is the UAX #15 canonically ordered full decomposition",
 "For every input text, the characters produced by NFD (NFKD) are exactly the full canonical (compatibility) decomposition of each input character under Unicode 16.0, in text order, with every maximal run of non-starters stably sorted by canonical combining class. Nothing is lost, duplicated or reordered across a starter, however many combining marks follow one another.",
 ["inputs"],"every sequence of Unicode scalar values, of any length and any number of consecutive non-starters",
 "The tests use a fixed list of about 20,000 short strings, almost all with at most four combining marks; the sort/flush buffer behaviour depends on the whole pattern of combining classes and run lengths.",
 ["src/decompose.rs","src/normalize.rs","src/lookups.rs","src/tables.rs"],
 [("pending/ready buffer, stable sort of pending marks, flush at a starter","src/decompose.rs Decompositions::{push_back,sort_pending,reset_buffer,increment_next_ready,next}"),("per-character full decomposition","src/normalize.rs decompose*")],
 [("buffer/ready","decomposed characters waiting; prefix [ready) may be emitted","src/decompose.rs struct Decompositions")],
 ["characters yielded by nfd()/nfkd()"])
p("C02","NFC and NFKC output is the UAX #15 canonical composition of the decomposition",
 "For every input text, NFC (NFKC) produces exactly the result of the Unicode canonical composition algorithm applied to the NFD (NFKD) form: each non-blocked character that forms a primary composite with the last starter is absorbed into it, every other character is kept in order. This holds for precomposed, Hangul, supplementary-plane and multi-step compositions and for runs of marks of any length.",
 ["inputs"],"every sequence of Unicode scalar values, of any length",
 "Blocking and re-composition depend on the combination of combining classes, pending marks and earlier compositions; tests sample fixed strings with few marks.",
 ["src/recompose.rs","src/decompose.rs","src/normalize.rs","src/tables.rs"],
 [("Composing/Purging/Finished machine with composee, last_ccc and mark buffer","src/recompose.rs Recompositions::next"),("pair composition","src/normalize.rs compose")],
 [("composee/last_ccc/buffer/state","current starter, class of last kept mark, kept marks, phase","src/recompose.rs struct Recompositions")],
 ["characters yielded by nfc()/nfkc()"])
p("C03","Normalization is idempotent and respects canonical and compatibility equivalence",
 "For every text, applying a normalization form to its own output changes nothing, and the forms absorb one another as UAX #15 promises (NFC of NFD is NFC, NFD of NFC is NFD, NFKC/NFKD of any of the four forms equals NFKC/NFKD of the text). Canonically equivalent texts - for instance two texts that differ only by swapping adjacent marks of different non-zero combining class, or by replacing a character by its canonical decomposition - have identical NFC, NFD, NFKC and NFKD forms.",
 ["inputs"],"every text and every pair of canonically equivalent texts",
 "Relations between outputs over all texts; test data checks them only on the listed conformance strings.",
 ["src/decompose.rs","src/recompose.rs","src/normalize.rs","src/tables.rs"],
 [("decompose-reorder-compose pipeline","src/lib.rs UnicodeNormalization; src/decompose.rs; src/recompose.rs")],None,["nfc/nfd/nfkc/nfkd outputs"])
p("C04","is_nfc, is_nfd, is_nfkc, is_nfkd tell exactly whether a text is normalized",
 "For every string s, is_nfc(s), is_nfd(s), is_nfkc(s) and is_nfkd(s) return true if and only if normalizing s to the corresponding form leaves it unchanged.",
 ["inputs"],"every string",
 "The answer combines a per-character quick check, combining-class order and a fallback to full normalization; tests only ask about conformance strings.",
 ["src/quick_check.rs","src/tables.rs"],
 [("quick_check loop plus fallback comparison","src/quick_check.rs quick_check, is_nf*")],
 [("last_cc/result","class of the previous character, verdict so far","src/quick_check.rs quick_check")],["return values of is_nf*"])
p("C05","Quick checks are never wrong: Yes and No are definitive",
 "For every text, a quick check that answers Yes is only given for a text that is in the queried form (for the stream-safe variants: also stream-safe), and one that answers No only for a text that is not. For NFD and NFKD (including stream-safe NFD) the quick check always gives a definite answer, never Maybe.",
 ["inputs"],"every sequence of Unicode scalar values and all six quick-check functions",
 "Soundness is a universally quantified implication over texts; the tests never examine Yes/No/Maybe answers on strings outside the conformance list except two stream-safe strings.",
 ["src/quick_check.rs","src/tables.rs","src/stream_safe.rs"],
 [("quick_check with per-form QC tables","src/quick_check.rs quick_check; src/tables.rs qc_*")],None,["IsNormalized results"])
p("C06","Stream-safe text process bounds non-starter runs and only inserts CGJ",
 "For every text, the stream_safe output has, in NFKD, no run of more than 30 consecutive non-starters, and deleting the inserted U+034F characters gives back the input unchanged and in order. A U+034F is inserted before a character exactly when keeping that character would take the current run of NFKD non-starters beyond 30 (UAX15-D4), so text that is already stream-safe is returned unchanged.",
 ["inputs"],"every text, including runs of any length that mix characters whose decompositions begin or end with several non-starters",
 "Needs run lengths around 30 combined with multi-non-starter decompositions; the tests exercise three hand-written runs of single marks.",
 ["src/stream_safe.rs","src/lookups.rs","src/tables.rs"],
 [("non-starter counter and CGJ insertion","src/stream_safe.rs StreamSafe::next"),("leading/trailing non-starter classification","src/stream_safe.rs classify_nonstarters")],
 [("nonstarter_count","NFKD non-starters since last starter","src/stream_safe.rs struct StreamSafe")],["characters yielded by stream_safe()"])
p("C07","Stream-safe predicates accept exactly the normalized stream-safe strings",
 "For every string s, is_nfc_stream_safe(s) and is_nfd_stream_safe(s) return true if and only if s is in NFC (respectively NFD) and the stream-safe process leaves s unchanged, i.e. its NFKD never has more than 30 consecutive non-starters.",
 ["inputs"],"every string, with non-starter runs of any length",
 "Runs near the limit with ASCII/non-ASCII starters in between and multi-non-starter characters are needed; tests contain one regression string and four examples.",
 ["src/quick_check.rs","src/stream_safe.rs"],
 [("nonstarter counting inside quick_check, fallback through stream_safe()","src/quick_check.rs quick_check, is_nf*_stream_safe")],
 [("nonstarter_count","NFKD non-starters since last starter","src/quick_check.rs quick_check")],["return values"])
p("C08","Stream-safety and normalization compose in either order",
 "For every text, normalizing stream-safe text to NFC or NFD keeps it stream-safe, and making normalized text stream-safe keeps it normalized: both results are accepted by is_nfc_stream_safe / is_nfd_stream_safe.",
 ["inputs"],"every text, both orders, both forms",
 "A relation over long runs of marks through two adaptors; one regression string in the tests, otherwise only fuzzing.",
 ["src/stream_safe.rs","src/decompose.rs","src/recompose.rs","src/quick_check.rs"],
 [("adaptor pipelines","src/lib.rs UnicodeNormalization; src/stream_safe.rs")],None,["outputs of stream_safe().nfc()/nfd() and nfc()/nfd().stream_safe()"])
p("C09","canonical_combining_class matches Unicode 16.0 for every character",
 "For every Unicode scalar value the reported canonical combining class equals the Canonical_Combining_Class property in the Unicode 16.0 character database (0 for every character not listed there, including unassigned and private-use code points).",
 ["inputs"],"all 1,112,064 scalar values",
 "The tests never ask for a combining class directly; only the order of marks in conformance strings is visible.",
 ["src/lookups.rs","src/perfect_hash.rs","src/tables.rs"],
 [("salted perfect-hash lookup of packed entries","src/perfect_hash.rs mph_lookup; src/lookups.rs canonical_combining_class")],None,["char::canonical_combining_class"])
p("C10","compose yields exactly the Unicode 16.0 primary composite of every pair",
 "For every ordered pair of Unicode scalar values, compose returns the primary composite whose canonical decomposition is that pair (composition exclusions excluded, Hangul LV and LVT syllables composed arithmetically), and returns nothing for every other pair.",
 ["inputs"],"all pairs of scalar values (about 1.2 * 10^12)",
 "Pairs that must not compose are practically untested, and only composable pairs that occur in conformance strings are seen.",
 ["src/normalize.rs","src/lookups.rs","src/tables.rs"],
 [("Hangul arithmetic","src/normalize.rs compose_hangul"),("perfect-hash pair table for the BMP, match for supplementary planes","src/lookups.rs composition_table; src/tables.rs composition_table_astral")],None,["char::compose"])
p("C11","Single-character decompositions are the complete Unicode 16.0 ones",
 "For every Unicode scalar value, decompose_canonical and decompose_compatible emit exactly the character's full (recursively expanded) canonical and compatibility decomposition in Unicode 16.0, Hangul syllables included, and emit the character itself when it has none. Everything emitted is fully decomposed.",
 ["inputs"],"all 1,112,064 scalar values, both decompositions",
 "Characters without a decomposition (the vast majority) and supplementary code points not in the conformance file are never checked.",
 ["src/normalize.rs","src/lookups.rs","src/tables.rs"],
 [("Hangul arithmetic","src/normalize.rs decompose_hangul"),("perfect-hash lookup of (offset,length) into a character array","src/lookups.rs canonical_fully_decomposed, compatibility_fully_decomposed")],None,["char::decompose_canonical, char::decompose_compatible"])
p("C12","CJK compatibility variants replace exactly the standardized ideographs",
 "For every text, cjk_compat_variants replaces each CJK compatibility ideograph that has a standardized variation sequence in Unicode 16.0 by that sequence (unified ideograph followed by a variation selector) and leaves every other character, Hangul included, unchanged and in order. Replaced text survives NFC, NFD, NFKC and NFKD without losing the sequence.",
 ["inputs"],"all scalar values for the per-character function, all texts for the iterator",
 "Two hand-written strings are tested; 1,002 ideographs and all non-ideographs are not.",
 ["src/replace.rs","src/normalize.rs","src/lookups.rs","src/tables.rs"],
 [("one-character look-behind buffer","src/replace.rs Replacements::next"),("variant lookup","src/normalize.rs decompose_cjk_compat_variants")],
 [("buffer","second character of a replacement waiting to be yielded","src/replace.rs struct Replacements")],["char::decompose_cjk_compat_variants, cjk_compat_variants()"])
p("C13","is_combining_mark and is_public_assigned match Unicode 16.0 for every character",
 "For every Unicode scalar value, is_combining_mark is true exactly for General_Category Mark and is_public_assigned is true exactly for characters that are assigned and not private-use (noncharacters count as unassigned) in Unicode 16.0.",
 ["inputs"],"all 1,112,064 scalar values",
 "About a hundred code points are sampled.",
 ["src/lookups.rs","src/tables.rs"],
 [("perfect-hash membership","src/lookups.rs is_combining_mark"),("range match","src/tables.rs is_public_assigned")],None,["char::is_combining_mark, char::is_public_assigned"])
p("C14","Normalization iterators obey the iterator contract at every point",
 "At every moment of consuming any of the adaptors (NFD, NFKD, NFC, NFKC, CJK variants, stream-safe): size_hint's bounds enclose the number of characters still to come; once None is returned over a fused source it is returned forever (for the four normalization forms over any source: they stop at its first end); and, where the adaptor offers them, a clone yields the same remaining characters independently of the original, and formatting with Display prints exactly the remaining characters without consuming them and reports a writer's failure. Consuming the rest by nth, count, last, fold, for_each, position or collect gives the same characters as repeated next.",
 ["inputs","histories"],"every text, every adaptor, every prefix of next() calls before the observation",
 "Tests drain iterators once from the start and never look at size_hint, clones, Display mid-way or calls after the end.",
 ["src/decompose.rs","src/recompose.rs","src/replace.rs","src/stream_safe.rs"],
 [("size_hint, FusedIterator, Clone, Display impls","src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs")],None,["Iterator::size_hint/next after None, Clone, Display, provided Iterator methods"])
p("C15","No input makes the crate panic, loop forever or produce an invalid character",
 "For every text and every Unicode scalar value or pair of them, every public function and iterator terminates without panicking, without out-of-bounds access or arithmetic overflow, and yields only valid Unicode scalar values (never a surrogate or a value above U+10FFFF).",
 ["inputs"],"every text and every (pair of) scalar value(s), all public functions",
 "Table offsets, hash indices, unchecked char construction and buffer indices are only exercised at the sampled inputs.",
 ["src/normalize.rs","src/lookups.rs","src/perfect_hash.rs","src/decompose.rs","src/recompose.rs","src/replace.rs","src/stream_safe.rs","src/quick_check.rs"],
 [("range checks before char::from_u32_unchecked","src/normalize.rs decompose_hangul, compose_hangul"),("hash index reduction below table length","src/perfect_hash.rs my_hash")],None,["absence of panics; validity of chars"])
p("C16","Normalization is streaming: output is not delayed behind needless input",
 "For every text, an NFD or NFKD iterator that has just yielded a character has read its source at most through the character that contributes the first starter at or after the yielded one, and an NFC or NFKC iterator at most through the character that contributes the first starter after everything composed into the yielded one. So on stream-safe text no adaptor ever holds back more than a bounded amount of input.",
 ["inputs","histories"],"every text and every point of consumption",
 "Look-ahead is invisible to output-comparing tests; only a fuzz target that is not part of the test suite measures it.",
 ["src/decompose.rs","src/recompose.rs"],
 [("drain ready characters before pulling more","src/decompose.rs Decompositions::next"),("purge before composing on","src/recompose.rs Recompositions::next")],None,["calls to the source iterator's next()"])
p("C17","All entry points agree: &str, char, iterators and constructors",
 "For every text, calling nfd, nfkd, nfc, nfkc, cjk_compat_variants or stream_safe on a &str, on its chars() or any other char iterator, on a single char (for one-character texts), or through the corresponding public constructor yields the same characters; and the yield does not depend on whether the source iterator knows its length.",
 ["inputs","configurations"],"every text, every entry point",
 "Tests call the char implementation for one method and one character only.",
 ["src/lib.rs","src/decompose.rs","src/recompose.rs","src/replace.rs","src/stream_safe.rs"],
 [("three UnicodeNormalization impls","src/lib.rs"),("new_canonical/new_compatible/new_cjk_compat_variants/new","src/decompose.rs, src/recompose.rs, src/replace.rs, src/stream_safe.rs")],None,["outputs of every entry point"])
p("C18","Text segments separated by a normalization boundary do not influence each other",
 "For every pair of texts a and b where b begins with a character that starts a new segment (it is a starter, does not change by decomposing to a leading non-starter, and can never compose with what precedes it), normalizing a followed by b gives the normalization of a followed by the normalization of b, for all four forms; the same holds for the is_nf* predicates (conjunction). State left over from earlier text never leaks into later text.",
 ["inputs","histories"],"every text a (any history), every text b starting at a boundary, all four forms",
 "Statefulness across segments depends on every possible history of the iterator; tests run one short segment at a time.",
 ["src/decompose.rs","src/recompose.rs","src/quick_check.rs"],
 [("state reset at starters","src/recompose.rs Purging -> Composing; src/decompose.rs reset_buffer")],None,["nf*(a+b), nf*(a), nf*(b)"])
p("C19","Quick checks decide whatever the UAX #15 quick check algorithm decides",
 "For every text, each is_*_quick function answers Yes when the quick check algorithm of UAX #15 over the Unicode 16.0 quick-check properties answers Yes (marks in canonical order, every character allowed in the form, and for the stream-safe variants no run of more than 30 non-starters), and answers No when that algorithm finds the text wrong. Maybe is only answered where the text contains a character whose quick-check property is Maybe and nothing that is definitely wrong.",
 ["inputs"],"every text, all six quick checks",
 "A quick check that says Maybe too often makes nothing wrong, only slow, so output-comparing tests cannot see it; tests look at a handful of strings.",
 ["src/quick_check.rs","src/tables.rs","src/lookups.rs","src/stream_safe.rs"],
 [("scan with last class, count of non-starters and per-character quick-check value","src/quick_check.rs quick_check"),("quick-check tables","src/tables.rs qc_nfc, qc_nfd, qc_nfkc, qc_nfkd")],None,["result of is_*_quick"])
p("C20","Memory held is bounded by the longest run of marks and is given back",
 "However long the text is, an adaptor holds at any moment no more heap memory than a constant plus a constant times the longest run of consecutive non-starters in the text's decomposition (so a bounded amount on stream-safe text), and all of it is given back when the adaptor is dropped, at whatever point of the iteration, and when a predicate returns.",
 ["inputs","histories"],"every text, every point of consumption",
 "Buffers that grow with the text or are never cleared change no output; no test measures memory.",
 ["src/decompose.rs","src/recompose.rs"],
 [("buffer truncated when the ready part is drained","src/decompose.rs reset_buffer"),("mark buffer cleared after purging","src/recompose.rs Recompositions::next")],
 [("Decompositions.buffer, Recompositions.buffer","characters waiting","src/decompose.rs, src/recompose.rs")],["bytes allocated and not yet freed"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
