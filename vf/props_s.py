from vf.base import *  # noqa

UB = "address,undefined"


def utf(pid, **kw):
    return [Job("utf_" + pid, "h/s_utf.cpp", opt="-O2", shards=8, args=[pid]),
            Job("utfsan_" + pid, "h/s_utf.cpp", opt="-O1", shards=8, args=[pid], san="undefined", **kw)]


prop("S01", "utf8_decoder accepts exactly well-formed UTF-8",
     "After each byte, utf8_decoder reports exactly one of: a complete code point (whose value is the one encoded), more "
     "input needed, or an error. It completes on exactly the well-formed UTF-8 sequences (no overlong forms, surrogates "
     "or values above U+10FFFF), needs more input on exactly their proper prefixes, and an error persists until reset.",
     ["inputs", "histories"],
     "every byte sequence until the decoder leaves the 'needs more input' state, for every starting state reachable in "
     "one more sequence, in each of the byte-like input types",
     "the tests decode a few strings; a wrong transition in the 2^32-sequence space of 4-byte inputs shows up only for "
     "particular lead/continuation combinations",
     ["include/muu/utf8_decoder.h"], [("state table", "include/muu/utf8_decoder.h utf8_decoder")],
     utf("S01"), "all transitions of the decoder from all reachable states")
prop("S02", "utf16_decoder accepts exactly well-formed UTF-16",
     "After each code unit, utf16_decoder reports exactly one of: a complete code point (whose value is the one encoded), "
     "more input needed (exactly after a high surrogate), or an error. It completes on exactly the well-formed "
     "sequences, and an error persists until reset.",
     ["inputs", "histories"],
     "every 16-bit unit from every decoder state, and every surrogate pair",
     "the tests never decode a surrogate pair (which is why the defect fixed here went unnoticed)",
     ["include/muu/utf16_decoder.h"], [("state", "include/muu/utf16_decoder.h utf16_decoder")],
     utf("S02"), "all transitions of the decoder from all reachable states")
prop("S03", "utf_decode reports every code point of a string once, in order",
     "utf_decode on a well-formed UTF-8/16/32 string calls the visitor once per code point with its value, offset and "
     "unit count, forwards in order and in reverse in exactly the opposite order, skipping a leading byte order mark and "
     "honouring its byte order. On ill-formed text the reported pieces still tile the input without gaps or overlaps, "
     "and a visitor returning false stops the iteration at once.",
     ["inputs"],
     "all byte strings up to length 3 (plus all words over lead/continuation representatives up to length 6), all unit "
     "strings over boundary alphabets for UTF-16/32, in both directions and both byte orders, every visitor arity",
     "truncated or corrupted sequences at the end of a string, reversed traversal and foreign byte order are "
     "combinatorial; the tests decode well-formed samples",
     ["include/muu/utf_decode.h"], [("forward and reverse decoding loops", "include/muu/utf_decode.h")],
     utf("S03", thorough_only=True), "bounded exhaustive strings; UBSan build in the thorough tier")
prop("S04", "transcode preserves the code points of a string",
     "transcode between any two of the UTF-8/16/32 string types yields exactly the encoding of the source's code points, "
     "including embedded NULs and supplementary-plane characters, and a round trip through any other encoding "
     "reproduces a well-formed string.",
     ["inputs"],
     "every single code point and all words over boundary code points up to length 5, for all 25 pairs of character "
     "types",
     "loss of particular characters (NUL, surrogate pairs, encoding length boundaries) in one of 25 conversions",
     ["include/muu/strings.h"], [("transcode", "include/muu/strings.h transcode")],
     utf("S04", thorough_only=True), "every code point; words up to the bound")
prop("S05", "Code point predicates agree with the Unicode character database",
     "Every character predicate (is_letter, is_number, is_whitespace, is_hyphen, is_combining_mark, is_lowercase, "
     "is_uppercase, digits, code point and boundary tests, and their ascii/non_ascii/not variants) gives, for every "
     "value of every character type, the answer of the Unicode 15.0 database; hex digit conversions round-trip.",
     ["inputs"],
     "every value of all 8- and 16-bit character types, every 32-bit value up to 0x120000 plus bit neighbours beyond "
     "(all 2^32 values in the thorough tier), all 33 predicates",
     "the generated lookup code has one branch per block of code points; the tests check a handful of ranges",
     ["include/muu/impl/unicode_char.h", "include/muu/impl/unicode_char16_t.h", "include/muu/impl/unicode_char32_t.h",
      "include/muu/chars.h"],
     [("generated lookups", "include/muu/impl/unicode_*.h"), ("hex digits", "include/muu/chars.h")],
     [Job("chars", "h/s_chars.cpp", opt="-O2", shards=8),
      Job("chars_san", "h/s_chars.cpp", opt="-O1", shards=8, san="undefined"),
      Job("chars_gcc0", "h/s_chars.cpp", opt="-O0", std="c++17", shards=8)], "every value, compared with a table generated "
     "from an independent copy of the Unicode database")
prop("S06", "string_param carries its text through every conversion and move",
     "Whatever character type and ownership a string_param is built from, every later view or string conversion (in any "
     "order, to any of the five character types) yields exactly the same text, across move construction and assignment, "
     "self-assignment and trim(). Non-owning params refer to the caller's text without copying, moved-from and empty "
     "params are empty and usable, owning() tells the two apart, and nothing leaks.",
     ["histories", "configurations"],
     "6 constructors x 5 character types x 9 payloads, all operation sequences up to length 3 (4), pairs of params with "
     "all sequences up to length 2 (3) of 19 operations; library built as C++20 and as C++17 (char8_t fallback)",
     "the payload is lazily transcoded in place inside a const conversion, so the effect of one operation depends on the "
     "ones before it; the tests perform single conversions",
     ["include/muu/string_param.h", "src/string_param.cpp"],
     [("in-place transcoding", "src/string_param.cpp get_view"), ("move assignment over another representation",
                                                                   "src/string_param.cpp operator=")],
     [Job("param20", "h/s_param.cpp", shards=8, san=UB, lib=["string_param.cpp"]),
      Job("param17", "h/s_param.cpp", shards=8, san=UB, lib=["string_param.cpp"], libflags=["-std=c++17"])],
     "all operation sequences to the bound under AddressSanitizer, UBSan and an allocation count")
prop("S07", "trim functions remove exactly the whitespace at the ends",
     "trim, trim_left and trim_right return the sub-view of their argument without the leading and/or trailing "
     "whitespace code points, for all five character types, and leave everything else, including inner whitespace, "
     "untouched; a string of only whitespace becomes empty.",
     ["inputs"],
     "all words up to length 5 (6) over 10 code points (5 whitespace), and every code point at either end",
     "multi-unit characters at the ends and whitespace outside ASCII; the tests trim a few ASCII strings",
     ["include/muu/strings.h"], [("utf_find based trimming", "include/muu/strings.h trim*")],
     utf("S07"), "all words up to the bound, every code point")
prop("S08", "fixed_string behaves like an immutable-length std::string",
     "A fixed_string holds exactly its declared number of characters followed by a terminator: construction truncates or "
     "zero-fills, concatenation, iteration, element access and streams agree with std::basic_string, substr and slice "
     "follow Python's index rules, and the comparison functions and operators (compile-time and run-time) order strings "
     "as std::basic_string does.",
     ["inputs"],
     "all strings up to length 4 over 4 characters (incl. NUL and the highest value) in 5 character types, all ordered "
     "pairs up to length 3, every constructor for capacities/sources 0-5, slice/substr for all index pairs in -6..6 and "
     "type extremes, strings longer than the index type",
     "signed/unsigned character order, self-comparison and negative or extreme indices are corner cases the tests do not "
     "enumerate",
     ["include/muu/fixed_string.h"], [("clamp_index / substr_impl / slice_impl", "include/muu/fixed_string.h"),
                                      ("compare", "include/muu/fixed_string.h")],
     [Job("fixed_" + c, "h/s_fixed.cpp", opt="-O0", san=UB, flags=["-DCHAR_TYPE=" + c])
      for c in ("char", "wchar_t", "char16_t", "char32_t", "char8_t")], "bounded exhaustive")
prop("S09", "uuid fields, ordering, parsing, printing and generation are RFC 4122",
     "A uuid stores its fields big-endian in RFC 4122 layout: accessors, version, variant and uint128 conversions invert "
     "the constructors, comparison is bytewise, printing gives 8-4-4-4-12 uppercase hex and parse() (every string type) "
     "inverts it, accepting 32 hex digits with optional braces, and hyphens or blanks between octets, and nothing else. "
     "Name-based uuids are the version 5 SHA-1 construction and generated ones are version 4, standard variant.",
     ["inputs"],
     "all 16-bit values of every field on three backgrounds; all pairs of boundary uuids; every edit of a digit string "
     "by two insertions, two deletions or one substitution; every byte value printed; names of length 0-150 and all 1-2 "
     "byte names; generate() for every seed of the entropy source in a range",
     "byte order slips and parser state errors need specific fields or malformed text; the tests parse a few samples",
     ["include/muu/uuid.h", "src/uuid.cpp"],
     [("parser state machine", "include/muu/uuid.h impl::uuid_parser"), ("generation", "src/uuid.cpp")],
     [Job("uuid20", "h/s_uuid.cpp", opt="-O2", shards=8, lib=["uuid.cpp", "hashing.cpp"], link=["-pthread"]),
      Job("uuid17", "h/s_uuid.cpp", opt="-O1", std="c++17", shards=8, lib=["uuid.cpp", "hashing.cpp"], link=["-pthread"],
          san="undefined"),
      Job("uuid_noint128", "h/s_uuid.cpp", opt="-O1", shards=8, lib=["uuid.cpp", "hashing.cpp"], link=["-pthread"],
          flags=["-DMUU_HAS_INT128=0"])], "bounded exhaustive")
prop("S10", "fnv1a and sha1 match their specifications for any chunking",
     "fnv1a (32/64/128) and sha1 produce the standard digest of the concatenation of everything fed to them, however it is "
     "split into calls and whichever overload is used; text in wider code units is hashed as its UTF-8 encoding with "
     "embedded NULs kept. After sha1::finish() further input is ignored, copies are independent, the printed form is "
     "lower-case hex, and hash_combiner is deterministic, order-sensitive and injective per step.",
     ["inputs", "histories"],
     "every message length 0-200 (400), every split point x 5 interfaces, three-way splits around block boundaries, all "
     "2-byte messages, one-bit 64-byte messages; every code point and words up to length 4 as UTF-16/32 text",
     "block-boundary and padding errors depend on length and split; the tests hash a few strings in one call",
     ["include/muu/hashing.h", "src/hashing.cpp"],
     [("block buffering", "src/hashing.cpp sha1::add / operator()"), ("padding", "src/hashing.cpp sha1::finish")],
     [Job("hash", "h/s_hash.cpp", opt="-O2", shards=8, lib=["hashing.cpp"]),
      Job("hash_san", "h/s_hash.cpp", opt="-O1", shards=8, lib=["hashing.cpp"], san=UB, libflags=["-O1"])],
     "bounded exhaustive, against independent implementations checked with published vectors")
