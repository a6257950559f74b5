#!/usr/bin/env python3
# writes ../properties.jsonl
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

CC = "src/c4/charconv.hpp"
p("C01", "Integer to decimal text is the canonical numeral, within the buffer",
  "For every value of every 8/16/32/64-bit signed or unsigned integer type, writing it as decimal text (default, explicit radix 10, padded, or generic conversion) yields its canonical decimal numeral: a '-' only for negatives, no '+', no leading zeros beyond the requested padding. The returned size is the exact number of characters needed whatever the buffer size; bytes outside the buffer are never touched, and when the buffer is too small nothing is written.",
  ["inputs"], "all values of the 8 integer types, all buffer lengths 0..needed+1, all paddings up to a small bound",
  "tests compare a list of sample values per type (powers of ten and limits); a wrong digit-count threshold, digit-pair table entry or sign/minimum handling between the samples passes them",
  [CC], [("digits_dec / write_dec_unchecked / write_dec / itoa / utoa / to_chars", CC)], ["returned size", "buffer bytes"])
p("C02", "Integer to hex, octal and binary text is exact, within the buffer",
  "For every value of every integer type, writing it in radix 16, 8 or 2 (bare, or with 0x/0o/0b prefix through the radix conversions, padded or not) yields exactly the positional digits of its value, lowercase, after sign and prefix. The returned size is the exact number of characters needed whatever the buffer size, bytes outside the buffer are never touched, and too small a buffer is left unwritten.",
  ["inputs"], "all values of the 8 integer types, all buffer lengths up to the need plus one, all three radices, paddings up to a small bound",
  "tests sample values; sizes and truncation are only sampled at a few buffer lengths",
  [CC], [("digits_hex/oct/bin, write_hex/oct/bin(_unchecked), xtoa/itoa/utoa with radix", CC)], ["returned size", "buffer bytes"])
p("C03", "Text to integer accepts exactly the numerals and returns their value",
  "For every string, the integer readers (bare decimal/hex/octal/binary readers, and the signed/unsigned conversions with 0x/0o/0b prefixes in either case) succeed exactly when the whole string is a numeral of that form, and then produce its mathematical value reduced to the width of the type. Strings that are empty, have only a sign or prefix, or contain any other character are rejected.",
  ["inputs"], "every byte string up to the bound, for each integer width",
  "tests use lists of good and bad strings; the accept set over all byte strings, all prefixes and both cases is not enumerated",
  [CC], [("read_dec/hex/oct/bin, atoi, atou, atox", CC)], ["return value", "*v"])
p("C04", "Integers survive a round trip through text",
  "For every value of every integer type and every radix, writing it to text and reading that text back with the matching reader succeeds and returns the same value, including the minimum of signed types.",
  ["inputs"], "all values of 8/16-bit types; wider types within the stated digit bounds; radix 2, 8, 10, 16",
  "round trips are sampled over value lists in the tests",
  [CC], [("to_chars/from_chars, itoa/atoi, utoa/atou, write_*/read_*", CC)])
p("C05", "Overflow detection is exact for every numeral and integer type",
  "For every numeral (decimal, hexadecimal, octal or binary, with any number of leading zeros and an optional minus for signed types), the overflow query says true exactly when its mathematical value does not fit the type; the overflow-checked reader fails exactly then. No string, however short, makes it read outside the string.",
  ["inputs"], "every numeral up to the bound on length for each integer width, each radix",
  "tests list the neighbours of the limits; leading zeros, radix prefixes and intermediate lengths are sampled",
  [CC], [("overflows<T>, overflow_limits, overflow_checked, from_chars(overflow_checked_)", CC)])
p("C06", "First-token parsing consumes exactly the leading token",
  "Parsing the first value of a string (integers, bool, single char, strings) skips only leading blanks, converts the leading token exactly as parsing that token alone would, returns the number of characters consumed up to the token's end, and reports failure when there is no token; the result never exceeds the string length.",
  ["inputs"], "every byte string up to the bound, for representative integer widths and for bool/char/string targets",
  "tests use a few well-formed inputs; leading blanks, trailing garbage and failure returns are barely sampled",
  [CC, "src/c4/substr.hpp"], [("from_chars_first, atoi_first, atou_first, first_int_span/first_uint_span", CC)])
p("C07", "Numeric token scanning returns a delimited prefix of the right class",
  "For every string, the leading unsigned/integer/real span functions return a view inside the string that starts at its first non-blank character, has the lexical form they name, and is empty when the token is not followed by a delimiter; the whole-string predicates (is it a number, an integer, an unsigned integer) hold exactly when the string is entirely such a token.",
  ["inputs"], "every byte string up to the bound",
  "tests list tokens; the classification over all byte strings is not enumerated",
  ["src/c4/substr.hpp"], [("first_int_span, first_uint_span, first_real_span, is_number, is_integer, is_unsigned_integer", "src/c4/substr.hpp")])
p("C08", "Text to floating point gives the exactly rounded value and stays in bounds",
  "For every string, reading a float or double either fails or succeeds with the correctly rounded value of a numeral that the string spells (decimal or hexadecimal), never reading outside the string; reading the first real reports how many characters it used.",
  ["inputs"], "every byte string up to a short length bound over the number alphabet; short decimal and hexadecimal numerals for the value",
  "tests use lists of numerals; memory safety and accept set over arbitrary bytes, and hexadecimal digits and exponents, are sampled",
  [CC, "src/c4/ext/fast_float_all.h"], [("atof, atod, detail::scan_rhex, fast_float::from_chars", CC)])
p("C09", "Floating point to text respects the buffer and reports the needed size",
  "Formatting a float or double (all four formats, any precision, any buffer length) never touches memory outside the buffer, returns a size no larger than the buffer only when exactly that many characters were written, and otherwise a size larger than the buffer.",
  ["inputs"], "all buffer lengths up to the bound, any outcome of the standard formatter allowed by its contract",
  "tests format with ample buffers; too-small buffers are sampled for a handful of values",
  [CC], [("detail::rtoa, ftoa, dtoa, to_chars(float/double)", CC)])
p("C10", "Base64 encode then decode is the identity, within the buffers",
  "For every byte sequence, encoding produces ceil(n/3)*4 characters of the standard alphabet with correct '=' padding that equal the RFC 4648 encoding, and decoding them returns the original bytes. Both report the exact size needed when the output is too small (or absent) and never touch bytes outside the output.",
  ["inputs"], "every byte string up to the bound and every output size 0..need+1",
  "tests encode a list of words; the bit packing for all byte values and the truncated-output sizes are sampled",
  ["src/c4/base64.cpp", "src/c4/base64.hpp"], [("base64_encode, base64_decode, tables", "src/c4/base64.cpp")])
p("C11", "Base64 validation accepts exactly well-formed encodings",
  "For every string, validation returns true exactly when its length is a multiple of four, its characters are from the standard alphabet, and padding ('=' or '==') appears only at the end; decoding any string that validation accepts raises no error and stays inside both buffers.",
  ["inputs"], "every byte string up to the bound",
  "tests list valid and a few invalid strings; misplaced padding and arbitrary bytes are not covered",
  ["src/c4/base64.cpp"], [("base64_valid, base64_decode", "src/c4/base64.cpp")])
p("C12", "Code points encode to well-formed UTF-8",
  "For every 32-bit code point up to 0x10FFFF the conversion writes the unique shortest UTF-8 sequence that decodes back to it and returns its length (1 to 4), touching no byte outside it; larger values write nothing and return 0. The textual (hexadecimal) form gives the same bytes for every hexadecimal string it accepts.",
  ["inputs"], "all 2^32 code point values; all hexadecimal strings of up to 8 digits",
  "tests list code points per length class; boundaries and continuation bits for all values are not enumerated",
  ["src/c4/utf.cpp"], [("decode_code_point", "src/c4/utf.cpp")])
p("C13", "Sub-views always lie inside the parent view",
  "For every string and every position/length accepted by the documented preconditions, each slicing operation (sub, range, first, last, offs, left_of, right_of, select by position) returns exactly the characters it names, as a view inside the parent; no precondition-satisfying call yields a view that extends beyond it.",
  ["inputs"], "every string length up to the bound and all positions/lengths incl. the npos sentinel; contents irrelevant",
  "tests slice a few literals; the boundary positions (0, len, npos) of each operation in combination are sampled",
  ["src/c4/substr.hpp"], [("basic_substring::sub/range/first/last/offs/left_of/right_of", "src/c4/substr.hpp")])
p("C14", "Searching and matching agree with the naive definition",
  "For every haystack, needle, character set and start position, find, last/first-of, first/last-not-of, count, begins/ends-with, containment and select return exactly what the obvious character-by-character definition says, including empty strings, repeated partial matches and misses, and always terminate.",
  ["inputs"], "every haystack/needle/set content up to the length bound, every start position",
  "tests search a few literals; self-overlapping needles, empty operands and start offsets near the end are sampled",
  ["src/c4/substr.hpp"], [("find, count, first_of, last_of, first_not_of, last_not_of, begins_with*, ends_with*, select", "src/c4/substr.hpp")])
p("C15", "Trimming, stripping and unquoting remove exactly what they name",
  "For every string, trim-left/right/both remove the maximal run of the given character or set at that end and nothing else; strip-left/right remove the pattern when present once; unquoting removes one matching pair of quotes; the results are views inside the string.",
  ["inputs"], "every string up to the bound, every trim character/set, patterns up to the bound",
  "tests trim a few literals",
  ["src/c4/substr.hpp"], [("triml, trimr, trim, stripl, stripr, unquoted", "src/c4/substr.hpp")])
p("C16", "Paired-delimiter ranges are correctly matched",
  "For every string, the paired-delimiter searches (distinct open/close, escaped quotes, and nested) return either an empty result or a view inside the string that starts at the first opening delimiter and ends at the delimiter that closes it: the nested search balances, and the escape-aware search ignores delimiters preceded by the escape.",
  ["inputs"], "every string up to the bound over all bytes, every delimiter/escape choice",
  "tests use a few literals",
  ["src/c4/substr.hpp"], [("pair_range, pair_range_esc, pair_range_nested, first_non_empty_span", "src/c4/substr.hpp")])
p("C17", "String comparison is a total order consistent across overloads",
  "For all strings, compare is the lexicographic order on (signed-ness consistent) characters with length as tie-breaker: antisymmetric, transitive, zero exactly for equal contents; ==, !=, <, <=, >, >= agree with it, and the overloads taking a character, a C string, std::string, std::string_view or a character vector agree with converting the operand to a view first.",
  ["inputs"], "all pairs/triples of strings up to the length bound, incl. null/empty views",
  "tests compare a few pairs; algebraic laws and overload agreement quantify over all contents",
  ["src/c4/substr.hpp", "src/c4/std/string.hpp", "src/c4/std/string_view.hpp", "src/c4/std/vector.hpp"], [("basic_substring::compare and relational operators", "src/c4/substr.hpp")])
p("C18", "In-place editing changes exactly the addressed characters",
  "For every mutable view, fill, reverse (whole, sub, range), case change, copy-from, erase and replace/replace-all (character or string) produce exactly the edited sequence of the naive definition, report its length/count, and never touch a byte outside the view or destination.",
  ["inputs"], "every content up to the bound, all positions/lengths meeting the preconditions, all destination sizes",
  "tests edit a few literals; boundary positions and overlapping patterns are sampled",
  ["src/c4/substr.hpp"], [("fill, reverse*, toupper/tolower, copy_from, erase*, replace, replace_all", "src/c4/substr.hpp")])
p("C19", "Splitting and popping partition the string",
  "For every string and separator, iterating a split yields, in order, exactly the maximal separator-free pieces, so that joining them with the separator rebuilds the string (empty pieces kept or dropped as documented); pop/gpop left/right, basename/dirname, extension functions return pieces that are views inside the string and rejoin to it.",
  ["inputs"], "every string up to the bound, every separator",
  "tests split a few literals",
  ["src/c4/substr.hpp"], [("split, next_split, split_proxy, pop_left/right, gpop_left/right, basename, dirname, extshort, extlong, name_wo_ext*", "src/c4/substr.hpp")])
p("C20", "cat and catsep write the exact concatenation and the exact size",
  "For all arguments (strings, characters, integers, bools) and every buffer size, cat/catsep return the total length of the concatenation of the arguments' text (separators exactly between arguments), write exactly that text when it fits, and never touch memory beyond the buffer when it does not.",
  ["inputs"], "all argument contents up to the bound, all buffer sizes 0..need+1",
  "tests concatenate fixed arguments at a few sizes",
  ["src/c4/format.hpp"], [("cat, catsep, detail::catsep_more", "src/c4/format.hpp")])
p("C21", "format substitutes each placeholder in order, exactly sized",
  "For every format string and argument list, format writes the format text with the i-th '{}' replaced by the i-th argument's text, leaves surplus placeholders verbatim and ignores surplus arguments, returns the exact total length for every buffer size, and never touches memory beyond the buffer.",
  ["inputs"], "every format string up to the bound, argument contents up to the bound, all buffer sizes",
  "tests use fixed format strings and arguments",
  ["src/c4/format.hpp"], [("format, detail format recursion", "src/c4/format.hpp")])
p("C22", "uncat, uncatsep and unformat invert cat, catsep and format",
  "Reading back text produced by the corresponding writer with the same format/separator returns the original arguments and consumes exactly the text that was written; an argument that cannot be read makes the reader report failure, and no text makes it read outside the text. (The literal text of a format is skipped by its length; it is not compared.)",
  ["inputs"], "all argument values/contents up to the bound, arbitrary texts up to the bound for safety",
  "tests round-trip fixed values",
  ["src/c4/format.hpp"], [("uncat, uncatsep, unformat", "src/c4/format.hpp")])
p("C23", "Growing-container formatting equals fixed-buffer formatting",
  "For all arguments and every initial container size, the resizing variants (catrs, catseprs, formatrs, to_chars into a container; also the append variants) leave the container holding exactly the text the fixed-buffer variant writes (after the preserved prefix for append), resized to exactly that length.",
  ["inputs"], "all argument contents up to the bound, all initial sizes 0..need+1",
  "tests use fixed arguments and a few initial sizes",
  ["src/c4/format.hpp", "src/c4/std/string.hpp", "src/c4/std/vector.hpp"], [("catrs, catrs_append, catseprs, formatrs, formatrs_append, to_chars_sub", "src/c4/format.hpp")])
p("C24", "Formatting wrappers pad, align and re-encode exactly",
  "For every value, width, padding character, radix and buffer size, the formatting wrappers (left/right alignment, zero padding, hex/oct/bin, base64, raw bytes) produce exactly the wrapped value's text padded to at least the width on the right side, return the exact size needed, and never touch memory outside the buffer; reading raw and base64 wrappers back restores the value.",
  ["inputs"], "all values of representative types, widths and buffer sizes up to the bound",
  "tests use fixed values with ample buffers",
  ["src/c4/format.hpp", "src/c4/format.cpp"], [("fmt::left/right/zpad/hex/oct/bin/raw/base64 and their to_chars/from_chars", "src/c4/format.hpp")])
p("C25", "Dumping through a small buffer emits the same characters, resumable",
  "For every argument list and scratch buffer size, dumping through a callback emits exactly the characters the buffer variant would write (or reports the needed scratch size without emitting out of order), and resuming after enlarging the scratch buffer continues at the first argument not yet dumped so that the total emitted text equals the one-shot text.",
  ["inputs", "histories"], "all argument contents up to the bound, all scratch sizes, all resume sequences of two calls",
  "tests use fixed arguments and a few scratch sizes; the resume point for every combination of sizes is not enumerated",
  ["src/c4/dump.hpp"], [("dump, cat_dump, cat_dump_resume, catsep_dump(_resume), format_dump(_resume)", "src/c4/dump.hpp")])
p("C26", "Spans keep their elements inside the original memory",
  "For every span, resizing span and original-remembering span and every operation sequence meeting the preconditions, sub/first/last/range and the trimming/resizing operations yield exactly the named elements, never extend past the capacity or original memory, and comparisons/equality agree with the viewed memory.",
  ["inputs", "histories"], "all sizes/capacities up to the bound, all positions, every one- and two-step operation sequence",
  "tests use fixed arrays and positions",
  ["src/c4/span.hpp"], [("span, spanrs, spanrsl", "src/c4/span.hpp")])
p("C27", "Linear and single-chunk memory resources hand out disjoint aligned blocks",
  "From every reachable state, a linear memory resource returns blocks that lie inside its memory, have the requested alignment and do not overlap blocks still held; requests that do not fit are refused (error or null), deallocating/reallocating preserves the contents of other blocks and the common prefix of a reallocated block.",
  ["histories"], "one and two steps from any state reachable by allocations; all sizes and power-of-two alignments up to the bound (and huge sizes)",
  "tests run fixed allocation sequences",
  ["src/c4/memory_resource.cpp", "src/c4/memory_resource.hpp"], [("MemoryResourceLinear, MemoryResourceLinearArr, _MemoryResourceSingleChunk", "src/c4/memory_resource.cpp")],
  state=[("m_pos", "bump offset", "src/c4/memory_resource.hpp"), ("m_mem/m_size", "chunk", "src/c4/memory_resource.hpp")])
p("C28", "Derived resources forward, count and restore faithfully",
  "Counting resources keep current/total/peak allocation counts and sizes equal to those of the actual sequence of calls forwarded; scoped overrides of the global resource restore the one that was in place; the default aligned allocation returns memory of the requested alignment and reallocation keeps the common prefix.",
  ["histories"], "all sequences of up to three operations with arbitrary sizes",
  "tests run fixed sequences",
  ["src/c4/memory_resource.cpp", "src/c4/memory_resource.hpp"], [("MemoryResourceCounts, AllocationCounts, ScopedMemoryResource, ScopedMemoryResourceCounts, detail aalloc/arealloc", "src/c4/memory_resource.cpp")])
p("C29", "Small-buffer allocators never alias live blocks",
  "For every sequence of allocations and deallocations, an allocator with embedded small storage returns blocks that are large enough, aligned, disjoint from all blocks still live, and frees to the resource exactly what it took from it.",
  ["histories"], "all sequences of up to four operations with sizes up to the bound",
  "tests run fixed sequences",
  ["src/c4/allocator.hpp"], [("SmallAllocator, Allocator, detail::AllocatorBase", "src/c4/allocator.hpp")])
p("C30", "Range construction and relocation preserve every element",
  "For every count, position and element type (trivial or with observable constructors/destructors), the range construct/copy/move/relocate/make-room/destroy-room helpers leave the specified values in the specified slots, with copies leaving their sources intact, no element constructed over a live one or destroyed twice where the helper's contract says so, and nothing outside the ranges touched.",
  ["inputs"], "all counts/positions up to the bound, overlapping relocation included, arbitrary element values",
  "tests use fixed counts and a counting type",
  ["src/c4/ctor_dtor.hpp"], [("construct_n, copy_*_n, move_*, make_room, destroy_room, destroy_n", "src/c4/ctor_dtor.hpp")])
p("C31", "Memory and bit utilities match their definitions",
  "For all inputs meeting their preconditions: memory fill by repetition, overlap test, blobs and pairs, most/least significant bit, integer power, contiguous bit masks and pointer/size helpers return what their mathematical definition says without undefined behaviour or writes outside the given range.",
  ["inputs"], "all values of 8/16/32/64-bit types; all region sizes up to the bound",
  "tests sample",
  ["src/c4/memory_util.hpp", "src/c4/memory_util.cpp"], [("mem_repeat, mem_overlaps, lsb, msb, ipow, contiguous_mask, first_bit_n.., tight_pair", "src/c4/memory_util.hpp")])
p("C32", "Enum and bitmask text conversions round-trip",
  "For every enumeration symbol, text lookup by exact name (full, or short when scoped) finds that symbol and only exact names match; for every combination of bits made of known symbols, converting to text and back gives the same bits, the size reported without a buffer is exactly what is written into a sufficient one, and too small buffers or malformed text are refused with an error, nothing outside the buffer or the text being touched.",
  ["inputs"], "all bit combinations of a registered flag enum, all buffer sizes, every query string up to the bound",
  "tests convert a few combinations",
  ["src/c4/enum.hpp", "src/c4/bitmask.hpp"], [("EnumSymbols::find, e2str, str2e, bm2str, str2bm", "src/c4/bitmask.hpp")])
p("C33", "Size conversions and hashing are exact",
  "Integer size conversion of a non-negative value returns the same mathematical value whenever it is representable and raises an error otherwise (with checks on); the 32/64-bit FNV-1a hash of every byte sequence is the published function of exactly those bytes.",
  ["inputs"], "all values for all pairs of integer types; all byte strings up to the bound",
  "tests sample values and strings",
  ["src/c4/szconv.hpp", "src/c4/hash.hpp"], [("szconv, is_narrower_size, detail::fnv1a", "src/c4/szconv.hpp")])
p("C34", "Error settings are scoped and error reports are bounded",
  "Scoped error settings restore exactly the flags and callback in force before them for every nesting, and reporting an error with any message invokes the callback exactly once when and only when callbacks are enabled, with a message length no larger than its buffer, and never returns.",
  ["inputs", "histories"], "all flag values, callbacks and nestings of two; all lengths of the formatted message",
  "tests use a few settings and short messages",
  ["src/c4/error.cpp", "src/c4/error.hpp"], [("ScopedErrorSettings, handle_error", "src/c4/error.cpp")])
p("C35", "bool, character and string values convert to and from text faithfully",
  "bool values write as 0/1 and read back from 0/1/true/false words exactly; single characters and strings write themselves, read back whole into any sufficiently large destination, and are refused (with the needed size reported) when the destination is too small, never touching memory outside it.",
  ["inputs"], "all contents up to the bound, all destination sizes",
  "tests sample",
  [CC], [("to_chars/from_chars for bool, char, substr, csubstr, const char[N]; to_chars_sub", CC)])
p("C36", "Standard-library bridges view exactly the container's memory",
  "Viewing a std::string, std::string_view or character vector gives exactly its data and size, reading text into one resizes it to hold exactly the text, writing one gives its exact text and size, and comparing one with a view gives the lexicographical order of their characters.",
  ["inputs"], "all contents up to the bound",
  "tests sample",
  ["src/c4/std/string.hpp", "src/c4/std/vector.hpp", "src/c4/std/string_view.hpp"], [("to_substr, to_csubstr, to_chars, from_chars for std types; comparisons", "src/c4/std/string.hpp")])
p("C37", "Fixed-capacity callables own exactly one copy of their target",
  "Copying, moving, assigning, swapping and destroying an in-place function object invoke the stored target's copy/move/destroy so that every constructed target is destroyed exactly once, and calling it calls the current target with the given arguments and returns its result; the target never extends outside the fixed storage.",
  ["histories"], "all sequences of up to three operations from either empty or loaded state",
  "tests run fixed sequences",
  ["src/c4/ext/sg14/inplace_function.h"], [("stdext::inplace_function", "src/c4/ext/sg14/inplace_function.h")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
