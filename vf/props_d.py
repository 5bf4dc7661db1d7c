from vf.base import *  # noqa

UB = "address,undefined"
WRAP = ["-Wl,--wrap=aligned_alloc", "-Wl,--wrap=free"]


def view(pid):
    only = ["-DONLY=%d" % int(pid[1:])]
    return [Job("view_" + pid, "h/d_view.cpp", opt="-O1", shards=8, args=[pid], san="undefined", flags=only),
            Job("view17_" + pid, "h/d_view.cpp", opt="-O1", std="c++17", shards=8, args=[pid], flags=only)]


def own(pid):
    return [Job("own_" + pid, "h/d_own.cpp", opt="-O1", shards=8, args=[pid], san=UB, link=WRAP),
            Job("ownO2_" + pid, "h/d_own.cpp", opt="-O2", shards=8, args=[pid], link=WRAP)]


def misc(pid, **kw):
    return [Job("misc_" + pid, "h/d_misc.cpp", opt="-O1", shards=8, args=[pid], san=UB),
            Job("miscO2_" + pid, "h/d_misc.cpp", opt="-O2", shards=8, args=[pid]),
            Job("misc17_" + pid, "h/d_misc.cpp", opt="-O3", std="c++17", shards=8, args=[pid])]


prop("D01", "span denotes exactly the elements it was built from",
     "A span (fixed or dynamic extent) built from an array, std::array, iterators, pointer and count or another span "
     "denotes exactly those elements; size, size_bytes, empty, element access, front/back, forward and reverse iteration "
     "and iterator arithmetic agree with them. first, last and subspan (run-time and compile-time, including empty "
     "results at either end) denote the requested part, and constness and extent mismatches are rejected at compile time.",
     ["inputs"],
     "every (offset, count) pair of run-time sub-views and all compile-time ones for sizes 0-6, every constructor x "
     "element type x extent kind, all pairs of iterator positions",
     "boundary sub-views (empty, at the end, whole) and fixed/dynamic conversions are combinatorial; the tests sample a few",
     ["include/muu/span.h"], [("sub-views", "include/muu/span.h first/last/subspan"),
                              ("extent conversion", "include/muu/span.h impl::span_constructors")],
     view("D01"), "bounded exhaustive against pointer arithmetic on the underlying array")
prop("D02", "emplacement_array behaves like a bounded vector of its elements",
     "For every sequence of emplace_back, emplace_back_with, clear, move, element access and iteration, an emplacement_array holds exactly the elements a vector would, in order, up to its capacity; each "
     "element is constructed and destroyed exactly once, storage is released exactly once, and moved-from arrays are "
     "empty and usable. If an element's constructor throws, the array is unchanged and nothing leaks.",
     ["histories", "fault_sequences"],
     "all operation sequences up to length 5 (6) on two arrays for throwing, over-aligned, move-only and trivial "
     "elements, with every constructor call made to throw in turn",
     "double destruction, leaks on move or swap and exception paths depend on the history; the tests run a few linear "
     "scripts without failing constructors",
     ["include/muu/emplacement_array.h"], [("raw storage ownership", "include/muu/emplacement_array.h move/swap/destroy"),
                                           ("emplace_back", "include/muu/emplacement_array.h")],
     own("D02"), "all histories to the bound under AddressSanitizer and UBSan with element and allocation accounting")
prop("D03", "static_array holds exactly its value list",
     "A static_array<T, values...> has exactly the listed values: size, empty, element access, data, front/back and "
     "iteration agree with the list at compile time and at run time. The relational operators order two static_arrays "
     "as std::vector orders the same values.",
     ["programs", "inputs"],
     "every value list of length 1-3 over three values for six element types, limit values, and all pairs of lists of "
     "length 1-3 for every relational operator",
     "the relational operators and empty() were never exercised by the tests (both were broken)",
     ["include/muu/static_array.h"], [("relational operators", "include/muu/static_array.h")],
     view("D03"), "bounded exhaustive against std::vector")
prop("D04", "blob is an aligned, owning byte buffer with value semantics",
     "A blob of any size and alignment owns exactly that many bytes at that alignment: construction, copy, move, "
     "assign (from any memory, including its own contents) and resize, in any order, keep the documented bytes, "
     "never alias another blob, give at least the requested alignment, and release every allocation exactly once. "
     "Moved-from blobs are empty and usable, and self-assignment changes nothing.",
     ["histories"],
     "all sequences of 3 (4) of 48 operations on two blobs over sizes 0-4100 and alignments up to 4096, including self-"
     "assignment and assignment of sub-ranges of the blob itself",
     "aliasing and reallocation bugs appear for particular sequences of sizes and alignments",
     ["include/muu/blob.h"], [("reallocation", "include/muu/blob.h assign/resize"),
                              ("move and swap", "include/muu/blob.h")],
     own("D04"), "all histories to the bound under AddressSanitizer with the allocator wrapped")
prop("D05", "tagged_ptr keeps its pointer and its tag independent",
     "A tagged_ptr returns exactly the pointer and exactly the tag (integer, enum or small POD) last stored; setting, "
     "clearing or resetting either never changes the other, single tag bits address the same value, and comparisons and "
     "operator bool look at the pointer only (or, between tagged_ptrs, at both). can_store_ptr and can_store_tag accept "
     "exactly the values that survive a round trip, for every alignment and address width.",
     ["inputs", "configurations", "histories"],
     "all boundary addresses of the canonical address space x all small tags and all tag bit patterns x every mutator, "
     "for alignments 4 to 65536 and MUU_TAGGED_PTR_BITS unset, 48, 57 and 64; tags of every integer width incl. "
     "negative ones, enums and PODs; asserts on and off",
     "packing errors damage only particular bits: high or sign bits of addresses, negative tags, non-default address "
     "widths that no test configuration builds",
     ["include/muu/tagged_ptr.h"], [("packing", "include/muu/tagged_ptr.h impl::tptr_aligned_base")],
     [Job("tag", "h/d_misc.cpp", opt="-O1", shards=8, args=["D05"], san="undefined")]
     + [Job("tag%s" % b, "h/d_misc.cpp", opt="-O2", shards=8, args=["D05"], flags=["-DMUU_TAGGED_PTR_BITS=%s" % b])
        for b in (48, 57, 64)]
     + [Job("tagnd", "h/d_misc.cpp", opt="-O2", std="c++17", shards=8, args=["D05"], flags=["-DNDEBUG", "-DMUU_TAGGED_PTR_BITS=48"])],
     "bounded exhaustive against a (pointer, tag) pair")
prop("D06", "scope guards run exactly when they should, exactly once",
     "On leaving its scope a scope_guard invokes its callable exactly once, a scope_fail only when the scope is left by "
     "an exception, a scope_success only when it is not, and none of them when dismissed; guards run in reverse order of "
     "construction. This holds for every kind of callable (stateless, stateful, by reference, function), nested guards, "
     "exceptions caught in between, and guards used while other exceptions are already unwinding.",
     ["programs", "fault_sequences"],
     "all programs of up to 3 nested guards x 3 guard types x 7 callable kinds x 3 dismissal times x every throw point x "
     "every catch point x 0-2 (3) exceptions already in flight",
     "the interplay of throw point, catch point and pending exceptions is combinatorial; tests check single guards",
     ["include/muu/scope_guard.h"], [("exception counting", "include/muu/scope_guard.h impl::scope_guard_base"),
                                     ("packed dismissed flag", "include/muu/scope_guard.h impl::scope_guard_storage")],
     misc("D06"), "all programs within the bound executed on the real guards and compared with the language rules")
prop("D07", "function_view calls the object it views, through any copies",
     "Calling a function_view calls exactly the function or object it was bound to (the original object, with its "
     "constness), passing arguments with their value category and returning its result converted to the signature's "
     "return type; exceptions pass through. Copies are independent views of the same target and survive rebinding or "
     "destruction of the view they were copied from, and a default-constructed view is null.",
     ["histories", "programs"],
     "all sequences of 3 (4) operations over two views: binding to each of 14 kinds of callables, copy and move "
     "construction and assignment (const and non-const), nulling; calls of every live view after each step",
     "views of views, const overloads and copies of non-const views depend on overload resolution and history",
     ["include/muu/function_view.h"], [("binding", "include/muu/function_view.h impl::function_view_base::bind")],
     misc("D07"), "all operation sequences to the bound")
prop("D08", "compressed_pair is a pair whose empty members take no space",
     "A compressed_pair stores, returns (with the value category of the pair), copies, moves, assigns and swaps exactly "
     "its two members, for any mixture of empty, final, equal and non-copyable member types; first/second and get<0>/"
     "get<1> name the same objects. Distinct members of the same type have distinct addresses and an empty non-final "
     "member adds no storage.",
     ["histories", "programs"],
     "20 type combinations x all sequences of 4 operations on two pairs",
     "each combination selects a different specialisation; tests cover the simplest ones",
     ["include/muu/compressed_pair.h"], [("specialisations", "include/muu/compressed_pair.h impl::compressed_pair_base")],
     misc("D08"), "all operation sequences to the bound")
prop("D09", "integral_range enumerates exactly [start, end)",
     "An integral_range over any integer type (and pointers) visits exactly the values from start (inclusive) to end "
     "(exclusive) in ascending order; size, empty, operator bool, first/last, and the iterators' difference, offsetting, "
     "stepping in both directions, indexing and ordering agree with that sequence for every start <= end, including "
     "bounds at the limits of the type.",
     ["inputs"],
     "all pairs of bounds of the 8-bit types, boundary windows of the wider types and pointers; all pairs of iterator "
     "positions",
     "overflow at the ends of signed and unsigned types; the tests use small positive ranges",
     ["include/muu/integral_range.h"], [("size and distances", "include/muu/integral_range.h")],
     view("D09"), "bounded exhaustive under UBSan")
prop("D10", "aligned allocation and alignment arithmetic are exact",
     "aligned_alloc returns blocks of at least the requested size at the requested alignment (or null when the size "
     "cannot be represented), which aligned_free releases; apply_alignment rounds integers, enums and pointers up to the "
     "next multiple of a power of two, for every value whose result is representable.",
     ["inputs"],
     "all 8- and 16-bit values x every alignment, values around every power of two for 32/64 bits, sizes 1-400 and "
     "SIZE_MAX-n x alignments 1-8192",
     "size rounding near SIZE_MAX and values next to multiples of the alignment",
     ["include/muu/aligned_alloc.h", "include/muu/apply_alignment.h"],
     [("size rounding", "include/muu/aligned_alloc.h"), ("rounding", "include/muu/apply_alignment.h")],
     own("D10"), "bounded exhaustive; allocator wrapped")


def tlist(name, grp, page, jumbo=True, cxx="g++", **kw):
    fl = ["-DGRP=%d" % grp, "-DPAGE_TAG=%d" % page]
    if page < 1000:
        fl.append("-DMUU_TYPE_LIST_PAGE_SIZE=%d" % page)
    if not jumbo:
        fl.append("-DMUU_TYPE_LIST_HAS_JUMBO_PAGES=0")
    if cxx != "g++":
        fl.append("-fbracket-depth=1024")
    return Job("tlist_%s" % name, "h/d_tlist.cpp", opt="-O0", flags=fl, cxx=cxx, **kw)


def tlist_jobs():
    out = []
    for p in (8, 16, 32, 48, 64):
        for j in (True, False):
            for g in (0, 1, 2, 3):
                quick = (g in (0, 3) and j) or (g == 1 and (p in (8, 64) and j or p == 32)) or (g == 2 and p == 32 and j)
                out.append(tlist("p%d%s_g%d" % (p, "" if j else "nj", g), g, p, j, thorough_only=not quick))
    for g in (0, 1, 2, 3):
        out.append(tlist("clang_g%d" % g, g, 1000, cxx="clang++", thorough_only=g == 1))
    return out


prop("D11", "type_list operations mean what they mean on a sequence of types",
     "For every list of types, type_list's length, element access, slices, prepend, append, flatten, select, index_of, "
     "contains and the other queries give exactly what the same operation gives on an ordinary sequence, whatever the "
     "length of the list and however it is split into internal pages.",
     ["inputs", "configurations"],
     "all (start, length) slices of every list up to 21 types and around each page boundary of long lists, all positions for element access, every word "
     "over a small alphabet for prepend/append/flatten/index_of, for five page sizes with and without jumbo pages",
     "the page boundaries (first, next, jumbo) each select a different specialisation; the tests use a handful of short lists",
     ["include/muu/type_list.h"], [("paging", "include/muu/type_list.h impl::type_page_*"),
                                   ("slicing", "include/muu/type_list.h impl::type_list_slice_*")],
     tlist_jobs(), "bounded exhaustive at compile time against a constexpr sequence model")
prop("D12", "a strong_typedef is its value with exactly the granted operations",
     "A strong_typedef holds exactly the value it was given; each operation its traits grant gives the result of that "
     "operation on the underlying values (wrapped again where documented), operations not granted do not exist, and it "
     "never mixes with other typedefs of the same type. Nesting one in another keeps the values and unwraps one level at "
     "a time.",
     ["programs", "inputs"],
     "every trait combination x value type x operation for existence, every pair of boundary values for every granted "
     "operation, nested typedefs two deep, hashing; under gcc (C++17, C++20, UBSan) and clang",
     "the set of operations is decided by a cross product of traits and value types, of which the tests instantiate a few",
     ["include/muu/strong_typedef.h"], [("granted operations", "include/muu/strong_typedef.h impl::strong_typedef_*")],
     [Job("strong", "h/d_strong.cpp", opt="-O1", san="undefined"),
      Job("strong17", "h/d_strong.cpp", opt="-O2", std="c++17"),
      Job("strongclang", "h/d_strong.cpp", opt="-O1", cxx="clang++")],
     "bounded exhaustive against the operations on the plain values")
prop("D13", "type_name spells every type in the documented uniform style",
     "type_name<T> gives the same readable C++ spelling of a type that its parts give: each layer of pointer, reference, "
     "array, cv-qualification, function or template adds exactly its own tokens around the names of the parts, and values "
     "among template arguments are spelled as decimal numbers. It never depends on which overload or compiler string "
     "produced the parts.",
     ["programs", "inputs"],
     "every declarator of up to four layers over several base types, every function signature over a small grammar (cv, "
     "ref, noexcept, variadic, 0-3 parameters), nested templates, and boundary integers of every integral type",
     "names are assembled by specialisations for each combination of layers; tests list some dozens of names",
     ["include/muu/type_name.h"], [("composition", "include/muu/type_name.h impl::type_name_*")],
     [Job("tname_g%d" % g, "h/d_tname.cpp", opt="-O0", flags=["-DGRP=%d" % g]) for g in range(4)]
     + [Job("tname17_g0", "h/d_tname.cpp", opt="-O0", std="c++17", flags=["-DGRP=0"])],
     "bounded exhaustive against a recursive speller")
prop("D14", "pointer_cast points where its table of casts says",
     "pointer_cast<To>(from) yields, for every pair of pointer types, the address the documented cast yields: the base or "
     "derived object for related classes (null when a polymorphic object is not of that type), the same address for void, "
     "cv changes, pointers to pointers and unrelated types, and null for null. Casts to and from integers, enums and "
     "function pointers round-trip, and widen as signed or unsigned according to the integer.",
     ["programs", "inputs"],
     "all pairs of 23 object types (class hierarchies with offset, virtual and multiple bases, pointers, arrays, scalars, "
     "void, incomplete) x all 16 cv combinations x every object of the hierarchy or null; 7 pointer x 11 integer types x "
     "15 bit patterns; function types with and without noexcept and variadics",
     "which cast is chosen depends on both types and their qualifiers together; the tests try six pairs",
     ["include/muu/pointer_cast.h"], [("cast selection", "include/muu/pointer_cast.h pointer_cast"),
                                      ("qualifier transfer", "include/muu/meta.h rebase_pointer, copy_cv, remove_noexcept")],
     [Job("pcast", "h/d_pcast.cpp", opt="-O0", san="vptr,null"), Job("pcastO2", "h/d_pcast.cpp", opt="-O2"),
      Job("pcastclang", "h/d_pcast.cpp", opt="-O1", cxx="clang++", thorough_only=True)],
     "every type pair instantiated and executed on every object kind")
prop("D15", "meta.h's traits classify and transform every type as documented",
     "The traits of meta.h that classify types (enums, integers, floats, characters, arrays, functions, cv and reference "
     "qualification, convertibility, inheritance, sets of types) and those that transform them (adding, removing and "
     "copying qualifiers, changing signedness, rebasing pointers, promoting floats) give the documented answer for every "
     "type, whatever its cv-qualifiers and reference category. any_* and all_* are the disjunction and conjunction over "
     "their arguments (all_* being false for none).",
     ["inputs"],
     "56 base types x 4 cv x 3 reference categories for 25 classifying and 30 transforming traits; all pairs of 12 "
     "qualifications for the copying traits; all words up to length 3 over 8-11 types for set traits and folds; all "
     "conversion kinds up to length 3; all pairs and triples of a class hierarchy",
     "each trait is a set of partial specialisations, so a wrong or missing one only shows for one combination of "
     "qualifiers; the tests list some",
     ["include/muu/meta.h"], [("classification", "include/muu/meta.h is_*, any_*, all_*"),
                              ("qualifier rebasing", "include/muu/meta.h impl::rebase_ref_, rebase_pointer_, make_signed_")],
     [Job("meta_g%d" % g, "h/d_meta.cpp", opt="-O0", flags=["-DGRP=%d" % g]) for g in range(4)]
     + [Job("metadeep_g%d" % g, "h/d_meta.cpp", opt="-O0", flags=["-DDEEP", "-DGRP=%d" % g], thorough_only=True) for g in (0, 3)]
     + [Job("meta17_g%d" % g, "h/d_meta.cpp", opt="-O0", std="c++17", flags=["-DGRP=%d" % g]) for g in range(4)]
     + [Job("metaclang_g%d" % g, "h/d_meta.cpp", opt="-O0", cxx="clang++", flags=["-fbracket-depth=4096", "-DGRP=%d" % g])
        for g in range(4)],
     "bounded exhaustive against facts tabulated per base type and qualifier")

prop("D16", "detection traits answer for the type's actual operators, members and signature",
     "has_*_operator, is_iterable, is_mutex_like/is_shared_mutex_like, has_data/size_member_function and is_tuple_like are "
     "true for a type exactly when the expressions they stand for are valid on an object of that type (value category and "
     "cv included). arity, is_stateless_lambda and has_unambiguous_function_call_operator describe the callable's real "
     "signature whatever its cv, ref, noexcept and C-variadic qualification. get_from_tuple_like reaches every element "
     "with its value category preserved.",
     ["inputs"],
     "29 operators x 6 member-function qualifications x 7 object kinds, each asked for all operator traits; built-in, "
     "pointer and enum operands; all 64 subsets of the mutex members; range, container and tuple shapes; 312 function "
     "types and member functions; lambdas; manifest types",
     "each trait is a SFINAE expression that can be wrong for one qualification only; the tests ask a few types",
     ["include/muu/meta.h", "include/muu/iterators.h"],
     [("operator detection", "include/muu/meta.h has_*_operator"), ("callables", "include/muu/meta.h function_traits_"),
      ("tuples", "include/muu/meta.h is_tuple_like, get_tuple_like_element")],
     [Job("detect_g%d" % g, "h/d_detect.cpp", opt="-O0", flags=["-DGRP=%d" % g]) for g in range(3)]
     + [Job("detect17_g%d" % g, "h/d_detect.cpp", opt="-O0", std="c++17", flags=["-DGRP=%d" % g]) for g in range(3)]
     + [Job("detectclang_g%d" % g, "h/d_detect.cpp", opt="-O0", cxx="clang++", flags=["-fbracket-depth=4096", "-DGRP=%d" % g])
        for g in range(3)],
     "bounded exhaustive against the language's rules tabulated per qualification")

prop("D17", "compile-time loops, iterator access, literals and language helpers are exact",
     "for_sequence and for_product call the function once per index (or pair, row by row), in order, with the matching "
     "integral_constant and the function's own value category, and are noexcept exactly when every call is. begin_iterator, "
     "end_iterator and iterator_distance pick what a range-based for would and measure it exactly, by subtraction where "
     "there is one. Literals, bit_cast, launder, assume_aligned, source_location, unwrap and flag operators keep every bit "
     "of what they are given.",
     ["inputs"],
     "all lengths 0-12 (0-64 thorough) x 7 index types x 3 function categories x 6 throwing points; all products up to "
     "4x4 (8x8); arrays of 1-12 elements of 6 types, 7 containers of 0-6 elements, all position pairs; boundary values of "
     "every literal; all 8 and 16 bit patterns (boundary 32/64 bit ones) through bit_cast for all type pairs; all offsets "
     "in 4 KB for 8 alignments; all 341 paths up to 4 characters; all pairs of 8-bit flags",
     "fold expressions, the unrolled specialisation for short lengths, and noexcept computed per call can each be wrong "
     "for some lengths or index types only",
     ["include/muu/for_sequence.h", "include/muu/iterators.h", "include/muu/integer_literals.h",
      "include/muu/size_t_literals.h", "include/muu/bit_cast.h", "include/muu/assume_aligned.h",
      "include/muu/launder.h", "include/muu/source_location.h", "include/muu/preprocessor.h"],
     [("loops", "include/muu/for_sequence.h for_sequence_impl, for_product_impl"),
      ("ranges", "include/muu/iterators.h begin_iterator, end_iterator, iterator_distance"),
      ("flags", "include/muu/preprocessor.h MUU_MAKE_FLAGS")],
     [Job("core_g%d" % g, "h/d_core.cpp", opt="-O1", flags=["-DGRP=%d" % g], san="undefined" if g == 2 else "") for g in range(4)]
     + [Job("core17_g%d" % g, "h/d_core.cpp", opt="-O2", std="c++17", flags=["-DGRP=%d" % g]) for g in range(4)]
     + [Job("coreclang_g%d" % g, "h/d_core.cpp", opt="-O1", cxx="clang++", flags=["-fbracket-depth=4096", "-DGRP=%d" % g])
        for g in range(4)]
     + [Job("coredeep_g%d" % g, "h/d_core.cpp", opt="-O1", flags=["-DDEEP", "-DGRP=%d" % g], thorough_only=True) for g in (0, 1)],
     "bounded exhaustive against the definition of each helper")

prop("D18", "every public header stands alone, in any order, and leaves the user's code be",
     "Every public header compiles when it is the first or only one included, twice, before or after any other, and in several "
     "translation units of one program, for every supported compiler and standard and with exceptions or RTTI off, and "
     "everything two headers offer together is there and defined whichever of them came first. Including one changes no "
     "diagnostics the user gets for their own code, and defines, redefines or removes no macro outside the MUU_ namespace.",
     ["programs", "configurations"],
     "all 70 headers alone and doubled x {g++, clang++} x C++17/20, without exceptions (6 configurations; 12 thorough, with "
     "RTTI off and other optimisation and architecture flags); each before (thorough: and after) all.h; 34 pairs of headers with shared "
     "vocabulary in both orders and through all.h x 2 compilers (x 2 standards thorough); each in two linked translation units; user diagnostics "
     "(two dozen classes of warning, and whether it is optimised) and the macro table with and without each header; thorough: all 4 830 ordered pairs x 2 compilers",
     "the tests include a few headers each, always with others before them, so a missing include, an out-of-order definition, a "
     "non-inline function or an unbalanced pragma shows only in a program the tests do not contain",
     ["include/muu/all.h", "include/muu/preprocessor.h", "include/muu/impl/header_start.h", "include/muu/impl/header_end.h"],
     [("self-containment", "the include list of every public header"),
      ("pragma balance", "include/muu/impl/header_start.h, header_end.h"),
      ("late definitions", "include/muu/*.h cross-shape members defined by whichever header completes the pair")],
     [Job("include", "h/d_include.cpp", opt="-O1", shards=8)],
     "exhaustive enumeration of inclusion sequences up to the bound; the oracle is acceptance by the compilers and linker")
