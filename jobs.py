import itertools
from vfrun import Job
COMMON_ASSUMPTIONS = [
 "clang 18 -O0 IR of the real sources (plus sroa/inline/early-cse/simplifycfg) and the ll2c translation preserve behaviour; witnesses are replayed natively against the real code on every run",
 "x86-64 data layout, C++17, libstdc++; heap allocation never fails; handle_error never returns (it is [[noreturn]])",
 "uninitialised memory is arbitrary; out-of-bounds and use-after-free accesses, signed overflow, bad shifts, division by zero and missing returns are violations",
]
PROPS = {}
NOT_APPLICABLE = {}
def prop(id, bounds, assumptions=()):
    def deco(f):
        PROPS[id] = dict(jobs=f, bounds=bounds, assumptions=list(assumptions))
        return f
    return deco

@prop("C12", "all 2^32 code points; hexadecimal strings of 1..8 digits not starting with '0' (documented precondition); output buffers of 4..6 bytes")
def c12(tier):
    return [Job("utf.cpp", "h_cp", [(4,), (6,)], unwind=10),
            Job("utf.cpp", "h_str", [(n,) for n in range(1, 9)], unwind=12)]

@prop("C10", {"quick": "data 0..9 bytes, output sizes 0..need+1 (all for data<=4)", "thorough": "data 0..24 bytes"})
def c10(tier):
    N = 9 if tier == "quick" else 24
    enc, rt = [], []
    for n in range(N + 1):
        need = (n + 2) // 3 * 4
        Ls = range(need + 2) if n <= 4 else sorted({0, 1, need // 2, need - 2, need - 1, need, need + 1})
        enc += [(n, L) for L in Ls]
        Ls = range(n + 2) if n <= 4 else sorted({0, 1, n // 2, n - 1, n, n + 1})
        rt += [(n, L) for L in Ls]
    return [Job("base64.cpp", "h_enc", enc, unwind=40), Job("base64.cpp", "h_rt", rt, unwind=40),
            Job("base64.cpp", "h_encnull", [(n,) for n in range(0, 8)], unwind=40),
            Job("base64.cpp", "h_enc", [(4, 8), (5, 8), (6, 8), (6, 5)], unwind=40, defs=["-DNDEBUG"]),
            Job("base64.cpp", "h_rt", [(4, 4), (5, 5), (6, 6), (6, 3)], unwind=40, defs=["-DNDEBUG"])]

@prop("C11", {"quick": "all byte strings of length 0..9, 12 (validation) and 0,4,8,12 (decoding), output sizes 0..need+1", "thorough": "strings to length 24"})
def c11(tier):
    N = [0, 4, 8, 12] if tier == "quick" else [0, 4, 8, 12, 16]
    return [Job("base64.cpp", "h_valid", [(n,) for n in (list(range(10)) + [12] if tier == "quick" else range(25))], unwind=40),
            Job("base64.cpp", "h_decode", [(n, L) for n in N for L in sorted({0, 1, 2, 3, n // 4 * 3 - 2, n // 4 * 3 - 1, n // 4 * 3, n // 4 * 3 + 1}) if L >= 0], unwind=40),
            Job("base64.cpp", "h_decode", [(n, n // 4 * 3) for n in N], unwind=40, defs=["-DNDEBUG"]),
            Job("base64.cpp", "h_decnull", [(n,) for n in N], unwind=40)]

# ---------------------------------------------------------------- substr
def R(*a): return [(i,) for i in range(*a)]
def X(*rs):
    import itertools
    return list(itertools.product(*[r if hasattr(r, "__iter__") else range(r) for r in rs]))
def U(k, i=0): return lambda p: max([x for x in p[:k] if x < 64], default=0) + 3  # unwinding bound from the sizes of the query
def q(tier, a, b): return a if tier == "quick" else b

@prop("C13", "string length 0..8 symbolic (contents irrelevant), every 64-bit position/length satisfying the documented preconditions, incl. npos; C strings up to 4 characters")
def c13(tier):
    N = q(tier, 8, 24)
    return [Job("substr.cpp", "h_slice_c", [(N,)]), Job("substr.cpp", "h_slice", [(N,)]),
            Job("substr.cpp", "h_slice_c", [(N,)], defs=["-DNDEBUG"]),
            Job("substr.cpp", "h_make", R(q(tier, 5, 8)))]


def POS(ps): # append every start position and npos (n+1) to tuples whose first entry is the length
    return [p + (k,) for p in ps for k in range(p[0] + 2)]
def SUBS(ps): # append every sub-range
    return [p + (a, b) for p in ps for a in range(p[0] + 1) for b in range(a, p[0] + 1)]

@prop("C14", {"quick": "haystacks 0..5 bytes (every content), patterns and sets 0..3 bytes, every start position incl. npos", "thorough": "haystacks 0..8, patterns 0..4"})
def c14(tier):
    n, m = q(tier, (6, 4), (9, 5))
    return [Job("substr.cpp", "h_findc", POS(R(n)), unwind=U(1)), Job("substr.cpp", "h_findset", POS(X(n, m)), unwind=U(2)), Job("substr.cpp", "h_findstr", [p for p in POS(X(n, m)) if p[2] <= p[0]], unwind=U(2)),
            Job("substr.cpp", "h_any", X(q(tier, (0, 1, 3, 4), range(7)), (0, 1, 2), (1, 2, 3), (2,)) + X((3,), (1, 2), (1, 2), (3, 4, 5)))]

@prop("C15", {"quick": "strings 0..6 bytes, sets/patterns 0..3 bytes", "thorough": "strings 0..9, sets 0..4"})
def c15(tier):
    n, m = q(tier, (7, 4), (10, 5))
    return [Job("substr.cpp", "h_trim", X(n, m), unwind=U(2)), Job("substr.cpp", "h_strip", X(n, m), unwind=U(2)), Job("substr.cpp", "h_unquoted", R(n))]

@prop("C16", {"quick": "strings 0..7 bytes over all byte values, all delimiters/escapes", "thorough": "strings 0..11"}, ["pair_range: no nested pair (documented precondition); opening, closing and escape characters differ"])
def c16(tier):
    n = q(tier, 8, 12)
    return [Job("substr.cpp", "h_pair", R(n), unwind=U(1)), Job("substr.cpp", "h_pair_esc", R(n), unwind=U(1)), Job("substr.cpp", "h_nonempty", R(n), unwind=8)]

@prop("C17", {"quick": "all pairs of strings of 0..4 bytes and triples of 0..3, all characters; string length unbounded for the character comparison", "thorough": "pairs to 7, triples to 5"})
def c17(tier):
    n, m, k = q(tier, (5, 4, 4), (8, 6, 6))
    return [Job("substr.cpp", "h_cmp", X(n, n)), Job("substr.cpp", "h_cmp_null", R(3)), Job("substr.cpp", "h_cmp_trans", [(m - 1,) * 3] + X(3, 3, 3) + q(tier, [], X(m, m, m))),
            Job("substr.cpp", "h_cmp_char", [()]), Job("substr.cpp", "h_cmp_arr", R(5)), Job("substr.cpp", "h_cmp_std", X(k, k)), Job("substr.cpp", "h_cmp_vec", X(k, k))]

@prop("C18", {"quick": "strings 0..5 bytes with guard bytes, every position/length in the preconditions; replace_all: text 0..4, pattern 1..2, replacement 0..3, destination 0..need+1", "thorough": "strings 0..8; replace_all text 0..6"},
      ["case change: ASCII characters (others are outside the domain of the C library call it makes)"])
def c18(tier):
    n = q(tier, 6, 9)
    ra = [(a, b, c, L) for a in range(q(tier, 5, 7)) for b in (1, 2) for c in q(tier, (0, 1, 2), (0, 1, 2, 3)) for L in sorted({0, 1, a, a + 1, (a // b) * c + a % b, (a // b) * c + a % b - 1}) if L >= 0]
    ra = [p + (k,) for p in ra for k in (range(p[0] + 2) if tier != "quick" else (0, 1, p[0] + 1)) ]
    ra = sorted(set(ra))
    rv = [p for p in SUBS(X(n, (1, 2)))] + [(a, 0, 0, 0) for a in range(n)]
    return [Job("substr.cpp", "h_fill", R(n)), Job("substr.cpp", "h_case", R(n)), Job("substr.cpp", "h_reverse", rv), Job("substr.cpp", "h_copy", [p for p in POS(X(n, 4)) if p[2] <= p[0]], unwind=U(2)),
            Job("substr.cpp", "h_erase", SUBS(X(n, 3)), unwind=U(1)), Job("substr.cpp", "h_replc", POS(X(n, 3)), unwind=U(2)), Job("substr.cpp", "h_repl_all", ra, unwind=U(3))]

@prop("C19", {"quick": "strings 0..6 bytes over all byte values, every separator", "thorough": "strings 0..9"})
def c19(tier):
    n = q(tier, 7, 10)
    return [Job("substr.cpp", "h_split", [p + (0,) for p in X(n, 2)] + [(a, 2, b) for a in range(n) for b in range(max(a, 1))], unwind=U(1)), Job("substr.cpp", "h_splitpost", R(n), unwind=U(1)), Job("substr.cpp", "h_pop", R(n), unwind=U(1)), Job("substr.cpp", "h_ext", R(n))]

# ---------------------------------------------------------------- integers to text
ITYPES = [("i8", 8), ("u8", 8), ("i16", 16), ("u16", 16), ("i32", 32), ("u32", 32), ("i64", 64), ("u64", 64)]
MAXDEC = {"i8": 3, "u8": 3, "i16": 5, "u16": 5, "i32": 10, "u32": 10, "i64": 19, "u64": 20}

@prop("C01", {"quick": "every value with 1, 2, 3, n/2, n-1 and n decimal digits (n the maximum of the type) for all 8 integer types, both signs incl. the minimum; padding to 0..n+2 digits; buffers too small, exact and larger", "thorough": "every value of every integer type; padding 0..24; room 0..2"},
      ["write_dec takes non-negative values (documented)", "zero padding below 2^32 digits"])
def c01(tier):
    js = []
    for t, b in ITYPES:
        n = MAXDEC[t]; sg = t[0] == "i"
        ds = sorted({1, 2, n // 2, n} if b == 64 else {1, 2, 3, n // 2, n - 1, n} - {0}) if tier == "quick" else range(1, n + 1)
        ps = []
        for d in ds:
            for mode in range(6):
                if tier == "quick" and ((d > 9 and mode not in (0, 1, 4)) or (6 < d <= 9 and mode in (2, 3, 5))): continue
                if tier == "quick" and d > 10 and mode == (0 if sg else 1): continue
                for neg in ([0, 1] if sg and mode != 0 else [0]):
                    if tier == "quick" and d > 10 and sg and not neg: continue
                    if tier == "quick" and d > 9: pads = (d + 1,) if mode == 1 else (0,)
                    elif mode < 3: pads = (0, d - 1, d, d + 1, n + 2) if tier != "quick" else ((0, d + 1) if d in (n, 1) else (0, d + 2) if mode == 1 else (0,))
                    else: pads = (0,)
                    for pad in sorted(set(pads)):
                        for room in ((0, 1, 2) if tier != "quick" else (0,) if d % 2 else (1,)): ps.append((d, mode, pad, room, neg))
        js.append(Job("int_write.cpp", "h_dec_" + t, sorted(set(ps), reverse=True), unwind=lambda p: max(p[2] + 4, 22 if p[4] and p[0] > 10 else 0) if p[2] or (p[4] and p[0] > 10) else p[0] // 2 + 4))
        ls = sorted({0, 1, n - 1, n} if b <= 32 else {0, n - 1, n}) if tier == "quick" else range(n + 1)
        ms = (0, 1, 4) if tier == "quick" and b >= 32 else range(6)
        ps = [(L, m, 0) for L in ls for m in ms if L < n + (1 if sg and m != 0 else 0)]
        ps += [(L, m, n + 1) for L in ((0, n) if tier == "quick" else (0, 1, n - 1, n)) for m in ms if m < 3]
        js.append(Job("int_write.cpp", "h_small_" + t, sorted(set(ps)), unwind=lambda p: p[2] + 3 if p[2] else 13))
    js.append(Job("int_write.cpp", "h_lemma", R(19)))
    js.sort(key=lambda j: -dict(ITYPES).get(j.entry.split("_")[-1], 0))
    return js

@prop("C02", {"quick": "hex, octal and binary: every value with 1, 2, n/2 and n digits for all 8 integer types, both signs incl. the minimum; unpadded and padded; buffers empty, one short, exact, one longer; pointers below 2^48", "thorough": "every value of every type, all paddings to n+2"},
      ["write_hex/oct/bin take non-negative values (documented)", "zero padding below 2^32 digits"])
def c02(tier):
    js = []
    for t, b in ITYPES:
        sg = t[0] == "i"; ps = []
        for sh in (4, 3, 1):
            n = (b + sh - 1) // sh
            np_ = (b - sg + sh - 1) // sh  # digits of the largest value
            ds = sorted({1, 2, n // 2, np_, n}) if tier == "quick" else range(1, n + 1)
            for d in ds:
                for mode in range(3):
                    for neg in ([0, 1] if sg and mode != 0 else [0]):
                        if not neg and d > np_: continue
                        for pad in (([0, d + 1] if mode != 2 or d >= np_ else [0]) if tier == "quick" else sorted({0, 1, d, d + 1, n + 2})):
                            need = max(d, pad) + neg + (2 if mode else 0)
                            Ls = {need - 1, need + 1} if (d >= np_ and pad and (b < 32 or mode == 1)) else {0, need} if d == 1 else {need - 1} if pad else {need}
                            if tier != "quick": Ls = {0, 1, 2, 3, need - 2, need - 1, need, need + 1}
                            for L in Ls:
                                if L >= 0: ps.append((sh, mode, pad, d, neg, L))
        js.append(Job("int_write.cpp", "h_p2_" + t, sorted(set(ps), key=lambda p: -p[5]), unwind=lambda p: max(p[2], p[3], p[5]) + 8))
    js.sort(key=lambda j: -dict(ITYPES).get(j.entry.split("_")[-1], 0))
    js.append(Job("int_write.cpp", "h_ptr", [(L,) for L in q(tier, (0, 2, 3, 13, 14, 15), range(17))], unwind=24))
    return js

# ---------------------------------------------------------------- text to integers
PF = {"x": 4, "X": 4, "o": 3, "O": 3, "b": 1, "B": 1}
def ndig(b, pf): return (b + PF[pf] - 1) // PF[pf]

@prop("C03", {"quick": "all byte strings of 0..6 characters (plus sign and prefix), and of the full decimal width, hexadecimal width+1, octal and binary width, for all 8 types and all readers; values checked modulo 2^width", "thorough": "all lengths to the full width + 2 of each radix"},
      ["atoi: the string does not start with '+' (documented)", "read_dec/hex/oct/bin: non-empty string (documented)", "out-of-range numerals wrap modulo 2^width (documented)"])
def c03(tier):
    js = []
    for t, b in ITYPES:
        n10 = MAXDEC[t]; ps = []
        for n in (sorted({0, 1, 2, 4, min(n10, 12)}) if tier == "quick" else range(n10 + 2)):
            for neg in (0, 1):
                for fn in (0, 1, 2) if n <= 4 or tier != "quick" else (0,): ps.append((n, neg, 0, fn))
            if n: ps.append((n, 0, 0, 3))
        if b == 64 and tier == "quick": ps.append((n10, 0, 0, 0))
        for pf in PF:
            w = ndig(b, pf)
            for n in (sorted({0, 1, 3, w + 1 if PF[pf] == 4 else w}) if tier == "quick" else sorted({*range(min(w + 2, 24)), w - 1, w, w + 1})):
                for neg in (0, 1):
                    if tier == "quick" and (n > 20 and (neg or b == 64) or n > 8 and pf.isupper()): continue
                    ps.append((n, neg, ord(pf), n % 3))
                if n and pf.islower() and n <= 40: ps.append((n, 0, ord(pf), 3))
        js.append(Job("int_read.cpp", "h_rd_" + t, sorted(set(ps), reverse=True), unwind=lambda p: p[0] + 5))
    js.sort(key=lambda j: -dict(ITYPES).get(j.entry.split("_")[-1], 0))
    return js

@prop("C04", {"quick": "radix 2, 8, 16: every value with 1, n/2 and n digits, all types; decimal: every value of up to 5 digits (complete for 8/16-bit types) and 7 digits for wider types", "thorough": "all digit counts in radix 2, 8, 16; decimal up to 10 digits"},
      ["decimal values of more digits: by composition of C01 (the text is the digits) and C03 (digits read as their value)"])
def c04(tier):
    js = []
    for t, b in ITYPES:
        sg = t[0] == "i"; ps = []
        for d in range(1, min(MAXDEC[t], q(tier, 5, 10)) + 1):
            for neg in (0, 1) if sg else (0,): ps += [(0, d, neg, 0)] + ([(0, d, neg, d + 1)] if d < 5 and d % 2 else [])
        if b > 16: ps += [(0, 7, 1 if sg else 0, 0)]
        for sh in (4, 3, 1):
            n = (b + sh - 1) // sh; np_ = (b - sg + sh - 1) // sh
            for d in (sorted({1, n // 2, np_, n}) if tier == "quick" else range(1, n + 1)):
                for neg in (0, 1) if sg else (0,):
                    if not neg and d > np_: continue
                    ps += [(sh, d, neg, 0)] + ([(sh, d, neg, d + 2)] if d <= 8 else [])
        js.append(Job("int_read.cpp", "h_rt_" + t, sorted(set(ps), key=lambda p: -p[1]), unwind=lambda p: max(p[1], p[3]) + 5))
    js.sort(key=lambda j: -dict(ITYPES).get(j.entry.split("_")[-1], 0))
    return js

@prop("C05", {"quick": "numerals with 0..2 leading zeros and w-1, w, w+1 (w the width of the type's limit) and 0, 1 significant digits in each radix and letter case, both signs, all types; memory safety for every string of 0..4 bytes", "thorough": "every number of significant digits to w+2"},
      ["a minus before an unsigned numeral: overflow iff the numeral is not zero is checked for non-zero numerals only"])
def c05(tier):
    js = []
    for t, b in ITYPES:
        sg = t[0] == "i"; ps = []
        for pf in [""] + list(PF):
            w = ndig(b, pf) if pf else MAXDEC[t]
            for n in (sorted({0, 1, w - 1, w, w + 1}) if tier == "quick" else range(w + 3)):
                for nz in (0, 1, 2):
                    if not pf and nz + n == 0: continue
                    if pf and nz + n == 0: continue
                    if tier == "quick" and n > 8 and (nz == 2 or (pf and pf.isupper())): continue
                    for neg in (0, 1):
                        if neg and not sg and (n == 0 or pf or nz): continue
                        for fn in (0, 1, 2):
                            if tier == "quick" and fn and (n + nz + neg) % 3 != fn: continue
                            if tier == "quick" and n > 40 and fn: continue
                            if neg and not sg and fn == 0 and n == 0: continue
                            ps.append((nz, n, neg, ord(pf) if pf else 0, fn))
        js.append(Job("int_read.cpp", "h_ovf_" + t, sorted(set(ps), key=lambda p: -p[1]), unwind=lambda p: p[0] + p[1] + 6))
        js.append(Job("int_read.cpp", "h_osafe_" + t, R(q(tier, 5, 9)), unwind=lambda p: p[0] + 4))
    js.sort(key=lambda j: -dict(ITYPES).get(j.entry.split("_")[-1], 0))
    return js

# ---------------------------------------------------------------- tokens
UW = lambda p: max(p[0] + p[1] + 4, 6)
@prop("C07", {"quick": "all byte strings of 0..2 blanks followed by 0..10 bytes (10 is enough for a signed, delimited 'infinity'); every span function and every is_* query", "thorough": "up to 3 blanks and 14 bytes"})
def c07(tier):
    ii = [(l, n, k, w) for l, n in q(tier, [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (0, 3), (2, 4), (1, 6), (0, 8), (0, 10)], X(4, range(13))) for k in (0, 1) for w in (0, 1)]
    rr = [(l, n, 2, w) for l, n in q(tier, [(0, 0), (1, 0), (0, 1), (0, 2), (0, 3), (1, 4), (0, 5), (0, 6), (0, 7), (0, 8), (1, 10)], X(4, range(15))) for w in (0, 1) if tier != "quick" or w == 0 or n not in (2, 6, 8)]
    return [Job("spans.cpp", "h_span", sorted(rr, key=lambda p: -p[1]), unwind=lambda p: max(11, UW(p))), Job("spans.cpp", "h_span", sorted(ii, key=lambda p: -p[1]), unwind=UW),
            Job("spans.cpp", "h_span", [(0, 6, 2, 0), (0, 6, 1, 0)], unwind=lambda p: max(11, UW(p)), defs=["-DNDEBUG"])]

@prop("C06", {"quick": "strings of 0..1 blanks followed by 0..6 bytes (every content), all 8 integer types, bool, char, pointers, string tokens with destinations of 0..4 bytes", "thorough": "0..2 blanks, up to 9 bytes"},
      ["bool: the token does not start with '+' (precondition of atoi)", "floating-point first-token reading is covered under C08"])
def c06(tier):
    js = []
    for t, b in ITYPES:
        js.append(Job("spans.cpp", "h_first_" + t, q(tier, [(0, 0), (1, 0), (0, 1), (1, 2), (0, 3), (1, 5), (0, 6)] if b in (8, 32) else [(0, 0), (1, 1), (0, 5)], X(3, 10)), unwind=UW))
    js.append(Job("spans.cpp", "h_firstx", [(l, n, k, 0) for l, n in q(tier, [(0, 0), (1, 0), (0, 1), (1, 2), (0, 4), (1, 6), (0, 6)], X(3, 9)) for k in (0, 1, 3, 4)], unwind=lambda p: max(UW(p), 7)))
    js.append(Job("spans.cpp", "h_firstx", [(l, n, 2, d) for l, n in q(tier, [(0, 0), (0, 1), (1, 2), (0, 4)], X(3, 9)) for d in range(q(tier, 5, 8))], unwind=lambda p: max(UW(p), p[3] + 3)))
    return js

# ---------------------------------------------------------------- formatting
@prop("C20", {"quick": "16 argument shapes (strings of 0..3 bytes, characters, arbitrary user-defined arguments, bools, integers, literals; separators: character, string, integer, user-defined, literal), buffers: empty, half, one short, exact, one more", "thorough": "strings to 6 bytes"},
      ["integer and bool arguments have representative values: their text is C01's business; any other text is covered by the user-defined argument, whose bytes are arbitrary"])
def c20(tier):
    ps = [(s, r, a, b, d, g) for s in range(16) for r in ((2, 3) if s in (11, 12) else (0, 1, 2, 3, 4)) for a, b, d, g in q(tier, [(0, 0, 1, 0), (2, 1, 1, 1), (1, 3, 3, 1), (3, 0, 2, 0)], [(a, b, d, g) for a in (0, 1, 3, 6) for b in (0, 2, 5) for d in (1, 2, 3) for g in (0, 1)])]
    return [Job("format.cpp", "h_cat", ps, unwind=8)]

def masks(n): # every placement of "{}" in a string of n characters
    return [m for m in range(1 << max(n - 1, 0)) if not (m & (m << 1))]
@prop("C21", {"quick": "every format string of 0..6 bytes, 0..3 arguments (string of 0..2 bytes, integer, character), buffers: empty, one short, exact, one more", "thorough": "format strings to 9 bytes"})
def c21(tier):
    ps = [(n, m, k, r, la, 0) for n in range(q(tier, 7, 10)) for m in masks(n) for k in range(4) for r, la in ([(0, 2), (1, 2), (2, 0), (3, 2)] if tier != "quick" or n in (2, 4, 5) else [(1 + (m + k) % 3, 1 + (n + k) % 2)])]
    ps += [(n, m, k, 2, 1, 1) for n in (2, 4) for m in masks(n) for k in (1, 2)] + [(n, m, k, r, 0, 2) for n in q(tier, (5, 6), (5, 6, 8)) for m in masks(n) for k in (1, 3) for r in (1, 2, 4)]
    return [Job("format.cpp", "h_format", ps, unwind=lambda p: max(8, p[0] + 3))]

@prop("C22", {"quick": "round trips: pairs of integers of every digit count and sign, every delimiter as separator, every format of the shape 1 byte {} 2 bytes {} 2 bytes, words of 3 bytes; arbitrary texts of 0..4 bytes for each reader, with every format of 5 bytes", "thorough": "arbitrary texts to 8 bytes"},
      ["unformat skips the format's text by length; it does not compare it with the buffer", "arguments and separators are such that tokens can be told apart (the separator is a delimiter)"])
def c22(tier):
    rt = [(a, g, b, h, f) for f in range(5) for a, g, b, h in q(tier, ((1, 0, 2, 1), (3, 1, 1, 0), (2, 0, 3, 1)), ((1, 0, 1, 0), (1, 0, 2, 1), (3, 1, 1, 0), (2, 0, 3, 1), (3, 0, 3, 1), (2, 1, 2, 0), (1, 1, 3, 0)))]
    an = [(n, f, 0) for n in q(tier, (0, 1, 3, 4), range(9)) for f in (0, 1, 2)] + [(n, 3, m) for n in q(tier, (2, 4), range(8)) for m in masks(5)]
    return [Job("format.cpp", "h_unrt", rt, unwind=lambda p: p[0] + p[2] + 9), Job("format.cpp", "h_unrtc", rt, unwind=lambda p: p[0] + p[2] + 9), Job("format.cpp", "h_unany", an, unwind=lambda p: p[0] + 6)]

@prop("C23", {"quick": "catrs, catseprs, formatrs, their append and returning variants; initial sizes 0..12, strings 0..3 bytes, integers of 1..3 digits", "thorough": "initial sizes 0..20, strings 0..6"},
      ["a container with resize/size and to_substr/to_csubstr written in the harness stands for the user's container"])
def c23(tier):
    return [Job("format.cpp", "h_rs", [(f, n, a, d) for f in (0, 1, 2, 3, 4, 5, 6, 8) for n in q(tier, (0, 1, 4, 5, 6, 7, 12), range(21)) for a, d in q(tier, ((0, 1), (3, 3)), X(7, (1, 2, 3))) if f < 6 or n == 0], unwind=9)]

@prop("C24", {"quick": "left/right: values of 0..3 characters, widths 0..5, buffers 0..6; hex/oct/bin/dec/zpad of all 8-bit values with buffers of 3..12, 16-bit values and pointers below 2^16; raw: 0..4 bytes, alignments 1..8, every misalignment, buffers 0..10; base64: 0..6 bytes", "thorough": "larger sizes"},
      ["raw: buffers based at a 16-byte aligned block plus an offset"])
def c24(tier):
    return [Job("format.cpp", "h_align", [(f, L, a, w) for f in range(4) for L in q(tier, range(7), range(10)) for a in range(4) for w in q(tier, range(6), range(9)) if f < 2 or a], unwind=12),
            Job("format.cpp", "h_radix_i8", [(f, L, nd) for f in range(8) for L in q(tier, (5, 12), range(13)) for nd in ((0,) if f < 4 else q(tier, (9 if L > 5 else 2,), (1, 4, 9)))], unwind=12),
            Job("format.cpp", "h_radix_u8", [(f, L, nd) for f in range(8) for L in q(tier, (3, 10), range(13)) for nd in ((0,) if f < 4 else q(tier, (8 if L == 3 else 2,), (2, 8)))], unwind=12),
            Job("format.cpp", "h_radix_u16", [(f, 20, 0) for f in q(tier, (0, 3), range(4))] + [(f, 20, 7) for f in q(tier, (5,), range(4, 8))], unwind=20),
            Job("format.cpp", "h_ptr", [(f, L, nd) for f in range(8) for L in q(tier, (3, 8, 20), (0, 1, 3, 6, 8, 12, 20)) for nd in ((6,) if f in (3, 6) else (0,))], unwind=20),
            Job("format.cpp", "h_boolalpha", X(7, 2, 2), unwind=10),
            Job("format.cpp", "h_raw", [(n, a, o, L, k) for n in (0, 1, 4) for a in (0, 1, 2, 3) for o in q(tier, (0, 1, 3, 4), range(9)) for L in q(tier, (0, 3, 4, 5, 8, 10), range(14)) for k in (0, 1) if tier != "quick" or k == (n + a + L) % 2], unwind=24),
            Job("format.cpp", "h_rawv", R(7), unwind=12), Job("format.cpp", "h_b64w", R(q(tier, 7, 12)), unwind=24)]

@prop("C25", {"quick": "8 argument shapes (cat, catsep, format; function and template-argument dumpers; strings of 0..2 bytes, integers of 1..3 digits), scratch buffers of 0..4 bytes, up to three resumptions", "thorough": "strings 0..4, scratch 0..6"},
      ["dumping: the scratch buffer is not empty when there are string arguments (an empty buffer dumps nothing: tested behaviour)"])
def c25(tier):
    cs = q(tier, [(0, 1, 1, 1), (2, 0, 2, 1), (1, 2, 1, 2), (2, 1, 3, 3)], [(a, b, d, e) for a in (0, 2, 4) for b in (0, 1, 3) for d in (1, 2, 3) for e in (1, 2, 3)])
    return [Job("format.cpp", "h_dump", [(f, L) + c for f in range(8) for L in range(1, q(tier, 5, 7)) for c in cs], unwind=10),
            Job("format.cpp", "h_resume", [(f, L) + c + (g,) for f in range(8) for L in range(0, q(tier, 5, 7)) for c in cs for g in (0, 1) if tier != "quick" or g == (L + f) % 2], unwind=10)]

# ---------------------------------------------------------------- spans
@prop("C26", {"quick": "memory of up to 12 elements, every size/capacity/offset state, sequences of up to 2 operations with every argument meeting the preconditions, span/spanrs/spanrsl over 8/32/64-bit signed and unsigned index types; comparisons of sequences of 0..3 elements", "thorough": "sequences of up to 4 operations, comparisons to 6"},
      ["ltrim/rtrim: fewer elements than the size (asserted precondition)"])
def c26(tier):
    return [Job("span.cpp", "ops_" + t, [(k,) for k in q(tier, (1, 2), (1, 2, 3, 4))], unwind=6) for t in ("s", "s8", "rs", "rs8", "rsl", "rsl32")] + [
            Job("span.cpp", "h_cmp", X(q(tier, 4, 7), q(tier, 4, 7)), unwind=U(2)), Job("span.cpp", "h_other", [()], unwind=4)]

# ---------------------------------------------------------------- utilities
UT = [t for t, b in ITYPES if t[0] == "u"]
@prop("C31", {"quick": "msb/lsb: all non-zero values of all unsigned types; masks: every interval of every integer type; ipow: every base of signed and narrow types (in range), bases to 255/31 of wide unsigned types, with exponents -4..4, and constant bases with every exponent -15..15, all exponent types; mem_repeat: patterns of 0..5 bytes, 0..9 times; overlap: all pairs of non-empty ranges in 32 bytes; alignments 1..4096 of every address", "thorough": "exponents -8..8; patterns to 8 bytes, 17 times"},
      ["msb, lsb: non-zero argument (documented)", "ipow: the result is representable in a signed base type; negative powers of a non-zero base other than -1", "mem_overlaps: non-empty ranges"])
def c31(tier):
    js = [Job("util.cpp", "h_bits_" + t, [()], unwind=4) for t in UT] + [Job("util.cpp", "h_powc_" + t, [()], unwind=18) for t, b in ITYPES]
    for t, b in ITYPES:
        js.append(Job("util.cpp", "h_mask_" + t, [(a,) for a in (range(b + 1) if b == 8 or tier != "quick" else sorted({0, 1, b // 2 - 1, b // 2, b - 1, b}))], unwind=b + 2))
        js.append(Job("util.cpp", "h_pow_" + t, [(16 + e,) for e in q(tier, range(-4, 5) if b < 64 else range(-4, 3), range(-8, 9) if b < 64 else range(-8, 4))], unwind=12))
    return js + [Job("util.cpp", "h_overlap", [()], unwind=4), Job("util.cpp", "h_aligned", [()], unwind=4), Job("util.cpp", "h_repeat", X(q(tier, 6, 9), q(tier, 10, 18)), unwind=lambda p: p[0] * p[1] + 4),
                 Job("util.cpp", "h_zero", R(5), unwind=lambda p: 4 * p[0] + 10), Job("util.cpp", "h_pair", [()], unwind=10), Job("util.cpp", "h_blob", [()], unwind=4)]

@prop("C33", {"quick": "size conversion: every value of every integer type to every integer type; hashing: every byte string of 0..3 bytes, in one or two updates", "thorough": "byte strings to 6"},
      ["size conversion: negative sizes are refused by narrowing conversions and passed on unchanged otherwise", "the checks are enabled (C4_XASSERT)"])
def c33(tier):
    return [Job("util.cpp", "h_conv_" + t, R(8), unwind=4, err_ok=True) for t, b in ITYPES] + [Job("util.cpp", "h_fit_" + t, R(8), unwind=4) for t, b in ITYPES] + [
            Job("util.cpp", "h_hash", [(n, k) for n in range(q(tier, 4, 7)) for k in sorted({0, n // 2, n})], unwind=U(2)), Job("util.cpp", "h_hasharr", [()], unwind=5)]

# ---------------------------------------------------------------- memory
def opseqs(n): # first an allocation, then any of allocate, deallocate, reallocate
    return [sum(o << (2 * i) for i, o in enumerate((0,) + t)) for t in itertools.product((0, 1, 2), repeat=n - 1)]
@prop("C27", {"quick": "every sequence of up to 3 operations (allocate, deallocate, reallocate of any held block; any 64-bit size, alignments 1..32) on 14 and 16 bytes of memory at a misaligned and an aligned base; owned chunks: release, acquire, borrow, clear", "thorough": "sequences of 4 operations on 20 and 24 bytes"},
      ["reallocation: the alignment divides the block's address (the block was allocated with it)", "in the memory model blocks obtained from the system start at aligned addresses; misaligned bases are offsets into them"])
def c27(tier):
    js = []
    for must in (0, 1):
        ps = [(n, c, b, must, o) for c, b in q(tier, ((16, 0),) if must else ((14, 4),), ((24, 0), (20, 4 - must))) for n in q(tier, (2, 3), (2, 3, 4)) for o in opseqs(n) if o & 15 != 4 or not o >> 4 & 3]
        js.append(Job("mem.cpp", "h_linear", ps, unwind=44, err_ok=not must)); js.append(Job("mem.cpp", "h_lineararr", [(1, 24, 0, must, 0)], unwind=44, err_ok=not must))
    return js + [Job("mem.cpp", "h_chunk", [()], unwind=6)]

@prop("C28", {"quick": "counting: every sequence of up to 3 operations with any sizes below 2^60; scoped overrides: every combination of two nested scopes; default allocation: old/new sizes 0..8, alignments 1..4096; user-set functions", "thorough": "sequences of 4 operations, sizes to 16"},
      ["posix_memalign is modelled: it rejects bad alignments and otherwise succeeds"])
def c28(tier):
    return [Job("mem.cpp", "h_counts", [(n,) for n in q(tier, (1, 2, 3), (1, 2, 3, 4))], unwind=6), Job("mem.cpp", "h_countops", [()], unwind=8), Job("mem.cpp", "h_scoped", [()], unwind=6), Job("mem.cpp", "h_setalloc", [()], unwind=6),
            Job("mem.cpp", "h_aalloc", [(n, m, a) for n, m in q(tier, ((1, 1), (3, 5), (5, 2), (8, 8), (1, 8)), X(range(1, 17), range(1, 17))) for a in q(tier, (0, 2, 3, 4, 6, 12), range(13))], unwind=lambda p: max(p[0], p[1]) + 10)]

@prop("C29", {"quick": "every sequence of 3 allocations and deallocations (of any held block), blocks of 0..7 objects, 4 allocator types with embedded room for 4 or 5 objects, alignments up to 16; reallocation of either of two blocks of 0..5 objects to 0..6, any contents", "thorough": "sequences of 4 operations; reallocations of 0..7"},
      ["one allocator object used alone: a block is given back to the allocator it came from", "the underlying resource is written in the harness; it records what is held"])
def c29(tier):
    sq = [(n, sum(o << (2 * i) for i, o in enumerate((0,) + t))) for n in q(tier, (3,), (3, 4)) for t in itertools.product((0, 1), repeat=n - 1) if all(sum(t[:i + 1]) <= i + 1 - sum(t[:i + 1]) + 1 for i in range(n - 1))]
    js = [Job("alloc.cpp", e, sq, unwind=8) for e in ("h_small", "h_small_al", "h_small_ov", "h_alloc")]
    for e, lo in (("h_re_small", 0), ("h_re_char", 0), ("h_re", 1)):
        z = q(tier, (lo, 2, 4, 5) if e == "h_re_small" else (lo, 3, 6) if e == "h_re_char" else (1, 3), range(lo, 8))
        js.append(Job("alloc.cpp", e, [(n, m, k, f) for n in z for m in z for k in z for f in (0, 1)], unwind=34))
    return js + [Job("alloc.cpp", "h_misc", [()], unwind=20)]

@prop("C30", {"quick": "ranges of 0..4 elements of a scalar, a trivial struct and a class with observable special members; make/destroy room: sizes 0..4, room 0..4, every position; any element values", "thorough": "sizes and rooms to 5 and 6"},
      ["in-place make_room/destroy_room leave the moved-from objects of the room (or of the tail) alive: what the code does, unspecified", "make_room/destroy_room into another buffer: the position is inside the source (asserted precondition)"])
def c30(tier):
    js = []
    for t in ("obj", "pod", "int"):
        js.append(Job("ctor.cpp", "h_range_" + t, [(n, f) for f in range(18) for n in (q(tier, (0, 1, 4), range(8)) if f < 9 else (1,))], unwind=20))
        mx = q(tier, 4, 5); ps = []
        for n in range(mx + 1):
            for r in range(mx + 2):
                for f in range(6):
                    for p in range(n + 1):
                        if f in (0, 4) and p: continue
                        if f == 4 and r > n or f == 5 and (p >= n or p + r > n): continue
                        if f in (2, 3) and not (p < n or n == p == 0): continue
                        if f == 3 and not (p < n + r or n + r == 0): continue
                        if tier == "quick" and f in (2, 3) and (n + r + p) % 2 != f % 2: continue
                        ps.append((n, r, p, f))
        js.append(Job("ctor.cpp", "h_room_" + t, ps, unwind=20))
    return js + [Job("ctor.cpp", "h_arr", [()], unwind=8)]

# ---------------------------------------------------------------- enums
@prop("C32", {"quick": "two enumerations (prefixed and scoped; names that begin with one another, names with digits): every name query of 0..7 bytes, every 32-bit value; two flag enumerations: every combination of bits to text and back, full and short names, exact and larger buffers; every text of two tokens (names, hexadecimal and decimal numbers of 1 or 2 digits); every text of 0..4 bytes", "thorough": "texts to 6 bytes"},
      ["flag combinations: every bit has a symbol of its own", "malformed text and too small buffers are refused by c4's error handler"])
def c32(tier):
    bits = [(d, o, b) for d in (0, 1) for o in (0, 2) for b in range(8)]
    return [Job("enums.cpp", "h_lookup" + k, R(8), unwind=12) for k in "12"] + [Job("enums.cpp", "h_value" + k, [()], unwind=12) for k in "12"] + [
        Job("enums.cpp", "h_bm1", bits, unwind=26), Job("enums.cpp", "h_bm2", [(d, o, b) for d in (0, 1) for o in (0, 1) for b in (1, 0x40, 0x41, 0x8000, 0x8041) if o or b != 0x8041], unwind=26), Job("enums.cpp", "h_bms", [(b, o) for b in range(8) for o in (0, 2)], unwind=26),
        Job("enums.cpp", "h_text", [(a, b) for a in (0, 1, 2, 3, 4, 9, 13) for b in (2, 3, 8 + 2, 12 + 2)], unwind=20), Job("enums.cpp", "h_any", R(q(tier, 5, 7)), unwind=10, err_ok=True), Job("enums.cpp", "h_any", R(q(tier, 5, 7)), unwind=10, err_ok=True, defs=["-DNDEBUG"]), Job("enums.cpp", "h_small", [(b, z) for b in (0, 1, 6, 7) for z in (1, 2, 4, 5, 7)], unwind=14, err_ok=True)]

@prop("C35", {"quick": "every bool, character; every text of 0..7 bytes as a bool; every string of 0..5 bytes with every destination of 0..6 bytes, for substr, csubstr and C strings", "thorough": "texts to 10 bytes, strings to 8"},
      ["source and destination do not overlap", "from_chars_first into a too small substr may leave a truncated word in it", "a bool text that is not a word is read as an integer: no plus sign (a precondition of atoi), prefixed numerals (0x..) only for safety"])
def c35(tier):
    N = q(tier, 5, 8); fits = lambda f: [(a, b, f) for a in range(N + 1) for b in range(N + 2)]
    return [Job("charstr.cpp", "h_bool", R(4), unwind=12), Job("charstr.cpp", "h_boolrd", R(q(tier, 8, 11)), unwind=U(4)), Job("charstr.cpp", "h_char", R(4), unwind=12)] + [
        Job("charstr.cpp", "h_strwr", fits(f), unwind=12) for f in (0, 1, 2, 6)] + [Job("charstr.cpp", "h_strrd", fits(f) if f in (1, 3) else [(a, 0, f) for a in range(N + 1)], unwind=12) for f in (0, 1, 2, 3)]

@prop("C36", {"quick": "std::string, std::vector<char>, std::string_view: contents of 0..4 bytes, destinations of 0..5", "thorough": "contents to 6 bytes"},
      ["lengths concrete per query, contents symbolic", "source and destination do not overlap"])
def c36(tier):
    N = q(tier, 4, 6); fits = lambda f: [(a, b, f) for a in range(N + 1) for b in range(N + 2)]
    return [Job("charstr.cpp", "h_strwr", fits(f), unwind=20) for f in (3, 4, 5)] + [Job("charstr.cpp", "h_strrd", fits(f), unwind=20) for f in (4, 5)] + [Job("charstr.cpp", "h_views", [(a, b, f) for a in range(N) for b in range(N)], unwind=20) for f in range(3)]

@prop("C37", {"quick": "two function objects, each empty or holding one of three kinds of targets, and every sequence of two of 12 operations (copy, move, swap, reset, self-assignment, conversion to a wider object, assignment of a new target); any captured values and arguments", "thorough": "the same"},
      ["calling an empty object throws: excluded", "the object moved from keeps a moved-from target, as in the source"])
def c37(tier):
    return [Job("inplace.cpp", "h_seq", [(t, u, a, b) for t in range(4) for u in range(4) for a in range(12) for b in q(tier, (0, 2, 3, 6, 9), range(12))], unwind=4), Job("inplace.cpp", "h_args", [()], unwind=18)]
