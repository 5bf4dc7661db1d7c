// D15: the classifying and transforming traits of meta.h, judged for every type of a closed universe against facts
// written down per base type, every cv-qualifier and every reference category.
#include "muu/half.h"
#include "muu/meta.h"
#include "vf.h"
#include <cstdint>
#include <tuple>
#include <type_traits>
#include <utility>

#if MUU_HAS_INT128 != 1 || !defined(__SIZEOF_INT128__)
	#error expected 128-bit integers
#endif

enum legacy_u : unsigned
{
	lu
};
enum legacy_s8 : signed char
{
	ls
};
enum legacy_free
{
	lf = -1
};
enum class scoped_i
{
};
enum class scoped_u16 : unsigned short
{
};
enum class scoped_b : bool
{
};
struct empty
{};
struct big
{
	long long a[5];
	~big() {}
};
struct derived : big
{};
struct alignas(32) over
{
	char c;
};
union uni
{
	int i;
	char c;
};
struct abstract_t
{
	virtual void f() = 0;
	int i;
};
struct conv // class that converts to integers is not one
{
	operator int() const;
};

enum kind : unsigned
{
	k_integral	 = 1,		// integral, enums included
	k_integer	 = 2,		// arithmetic integer
	k_float		 = 4,
	k_standard	 = 8,		// standard arithmetic
	k_extended	 = 16,
	k_signed	 = 32,
	k_unsigned	 = 64,
	k_char		 = 128,		// code unit
	k_legacy	 = 256,
	k_scoped	 = 512,
	k_bounded	 = 1024,
	k_unbounded	 = 2048,
	k_function	 = 4096,
	k_fptr		 = 8192,
	k_nosize	 = 16384,	// counts as size 0
	k_noref		 = 32768,	// cannot be referred to
	k_nocv		 = 65536,
	k_incomplete = 1 << 17
};
template <typename T, unsigned Kind, size_t Size, size_t Align, size_t Rank = 0>
struct fact
{
	using type					   = T;
	static constexpr unsigned kind = Kind;
	static constexpr size_t size = Size, align = Align, rank = Rank;
};
constexpr unsigned sgn_k = k_integral | k_standard | k_signed, uns_k = k_integral | k_standard | k_unsigned;
constexpr unsigned f_std = k_float | k_standard | k_signed, f_ext = k_float | k_extended | k_signed;
template <typename... F>
struct list
{};
// sizes as of x86-64; verified against sizeof below
using facts = list<fact<void, k_nosize | k_noref, 0, 0>,
				   fact<bool, uns_k, 1, 1>,
				   fact<char, sgn_k | k_char, 1, 1>,
				   fact<signed char, sgn_k | k_integer, 1, 1>,
				   fact<unsigned char, uns_k | k_integer, 1, 1>,
				   fact<wchar_t, sgn_k | k_char, 4, 4>,
#ifdef __cpp_char8_t
				   fact<char8_t, uns_k | k_char, 1, 1>,
#endif
				   fact<char16_t, uns_k | k_char, 2, 2>,
				   fact<char32_t, uns_k | k_char, 4, 4>,
				   fact<short, sgn_k | k_integer, 2, 2>,
				   fact<unsigned short, uns_k | k_integer, 2, 2>,
				   fact<int, sgn_k | k_integer, 4, 4>,
				   fact<unsigned, uns_k | k_integer, 4, 4>,
				   fact<long, sgn_k | k_integer, 8, 8>,
				   fact<unsigned long, uns_k | k_integer, 8, 8>,
				   fact<long long, sgn_k | k_integer, 8, 8>,
				   fact<unsigned long long, uns_k | k_integer, 8, 8>,
				   fact<__int128, k_integral | k_integer | k_extended | k_signed, 16, 16>,
				   fact<unsigned __int128, k_integral | k_integer | k_extended | k_unsigned, 16, 16>,
				   fact<muu::half, f_ext, 2, 2>,
				   fact<float, f_std, 4, 4>,
				   fact<double, f_std, 8, 8>,
				   fact<long double, f_std, 16, 16>,
#if MUU_HAS_FLOAT16
				   fact<_Float16, f_ext, 2, 2>,
#endif
#if MUU_HAS_FLOAT128
				   fact<__float128, f_ext, 16, 16>,
#endif
				   fact<legacy_u, k_integral | k_unsigned | k_legacy, 4, 4>,
				   fact<legacy_s8, k_integral | k_signed | k_legacy, 1, 1>,
				   fact<legacy_free, k_integral | k_signed | k_legacy, 4, 4>,
				   fact<scoped_i, k_integral | k_signed | k_scoped, 4, 4>,
				   fact<scoped_u16, k_integral | k_unsigned | k_scoped, 2, 2>,
				   fact<scoped_b, k_integral | k_unsigned | k_scoped, 1, 1>,
				   fact<empty, 0, 1, 1>,
				   fact<big, 0, 40, 8>,
				   fact<derived, 0, 40, 8>,
				   fact<over, 0, 32, 32>,
				   fact<uni, 0, 4, 4>,
				   fact<abstract_t, 0, 16, 8>,
				   fact<conv, 0, 1, 1>,
				   fact<std::nullptr_t, 0, 8, 8>,
				   fact<int[3], k_bounded, 12, 4>,
				   fact<scoped_u16[2], k_bounded, 4, 2>,
				   fact<int[2][5], k_bounded, 40, 4>,
				   fact<int[], k_unbounded | k_incomplete, 0, 4>,
				   fact<int[][4], k_unbounded | k_incomplete, 0, 4>,
				   fact<int*, 0, 8, 8, 1>,
				   fact<const int*, 0, 8, 8, 1>,
				   fact<void*, 0, 8, 8, 1>,
				   fact<volatile void* const*, 0, 8, 8, 2>,
				   fact<char**, 0, 8, 8, 2>,
				   fact<empty* volatile* const volatile*, 0, 8, 8, 3>,
				   fact<scoped_i*, 0, 8, 8, 1>,
				   fact<int (*)[3], 0, 8, 8, 1>,
				   fact<int* [4], k_bounded, 32, 8>,
				   fact<void(), k_function | k_nosize | k_nocv, 0, 0>,
				   fact<int(int, char) noexcept, k_function | k_nosize | k_nocv, 0, 0>,
				   fact<int(const char*, ...), k_function | k_nosize | k_nocv, 0, 0>,
				   fact<void() const, k_function | k_nosize | k_nocv | k_noref, 0, 0>,
				   fact<void (*)(), k_fptr, 8, 8, 1>,
				   fact<int (*)(int, ...) noexcept, k_fptr, 8, 8, 1>,
				   fact<void (**)(), 0, 8, 8, 2>,
				   fact<int empty::*, 0, 8, 8>,
				   fact<void (empty::*)(int) const, 0, 16, 8>>;

template <int CV, typename T>
using cv_t = std::conditional_t<CV == 0, T, std::conditional_t<CV == 1, const T, std::conditional_t<CV == 2, volatile T, const volatile T>>>;
template <int R, typename T>
struct ref_
{
	using type = T;
};
template <typename T>
struct ref_<1, T>
{
	using type = T&;
};
template <typename T>
struct ref_<2, T>
{
	using type = T&&;
};
template <int R, int CV, typename T>
using q_t = typename ref_<R, cv_t<CV, T>>::type;
template <typename A, typename B>
constexpr bool same = std::is_same_v<A, B>;

static void is(const char* trait, bool got, bool expected)
{
	VF_CHECK(got == expected, "%s is %d, should be %d", trait, got, expected);
	vf::trans();
}
static void eq(const char* trait, bool ok)
{
	VF_CHECK(ok, "%s is wrong", trait);
	vf::trans();
}
static void num(const char* trait, size_t got, size_t expected)
{
	VF_CHECK(got == expected, "%s is %zu, should be %zu", trait, got, expected);
	vf::trans();
}

template <typename F>
constexpr bool has(unsigned k)
{
	return (F::kind & k) != 0;
}

// ---- classification ---------------------------------------------------------------------------------------------------
template <typename F, int CV, int R>
static void classify()
{
	using B = typename F::type;
	using T = q_t<R, CV, B>;
	vf::state();
	is("is_enum", muu::is_enum<T>, has<F>(k_legacy | k_scoped));
	is("is_scoped_enum", muu::is_scoped_enum<T>, has<F>(k_scoped));
	is("is_legacy_enum", muu::is_legacy_enum<T>, has<F>(k_legacy));
	is("is_unsigned", muu::is_unsigned<T>, has<F>(k_unsigned));
	is("is_signed", muu::is_signed<T>, has<F>(k_signed));
	is("is_integral", muu::is_integral<T>, has<F>(k_integral));
	is("is_integer", muu::is_integer<T>, has<F>(k_integer));
	is("is_floating_point", muu::is_floating_point<T>, has<F>(k_float));
	is("is_standard_arithmetic", muu::is_standard_arithmetic<T>, has<F>(k_standard));
	is("is_extended_arithmetic", muu::is_extended_arithmetic<T>, has<F>(k_extended));
	is("is_arithmetic", muu::is_arithmetic<T>, has<F>(k_standard | k_extended));
	is("is_code_unit", muu::is_code_unit<T>, has<F>(k_char));
	is("is_character", muu::is_character<T>, has<F>(k_char));
	is("is_bounded_array", muu::is_bounded_array<T>, has<F>(k_bounded));
	is("is_unbounded_array", muu::is_unbounded_array<T>, has<F>(k_unbounded));
	is("is_array", muu::is_array<T>, has<F>(k_bounded | k_unbounded));
	is("is_function", muu::is_function<T>, has<F>(k_function));
	is("is_function_pointer", muu::is_function_pointer<T>, has<F>(k_fptr));
	constexpr bool fn = has<F>(k_function);
	is("is_const", muu::is_const<T>, !fn && (CV & 1));
	is("is_volatile", muu::is_volatile<T>, !fn && (CV & 2));
	is("is_cv", muu::is_cv<T>, !fn && CV != 0);
	is("is_cvref", muu::is_cvref<T>, !fn && CV != 0 && R == 0 || R != 0);
	num("pointer_rank", muu::pointer_rank<T>, R ? 0 : F::rank);
	if constexpr (!has<F>(k_incomplete))
		num("alignment_of", muu::alignment_of<T>, F::align);
	if constexpr (!has<F>(k_incomplete))
	{
		constexpr bool sized = !has<F>(k_nosize);
		num("total_size", muu::total_size<T>, sized ? F::size : 0);
		num("total_size of three", muu::total_size<T, char, T>, sized ? 2 * F::size + 1 : 1);
	}
}
template <typename F, int CV, int R, bool = !(has<F>(k_nocv) && CV) && !(has<F>(k_noref) && R)>
struct apply_classify
{
	static void run() { classify<F, CV, R>(); }
};
template <typename F, int CV, int R>
struct apply_classify<F, CV, R, false>
{
	static void run() {}
};

// ---- transformation -----------------------------------------------------------------------------------------------------
template <typename T>
struct plain_enum_
{
	using type = T;
};
template <>
struct plain_enum_<legacy_u>
{
	using type = unsigned;
};
template <>
struct plain_enum_<legacy_s8>
{
	using type = signed char;
};
template <>
struct plain_enum_<legacy_free>
{
	using type = std::underlying_type_t<legacy_free>;
};
template <>
struct plain_enum_<scoped_i>
{
	using type = int;
};
template <>
struct plain_enum_<scoped_u16>
{
	using type = unsigned short;
};
template <>
struct plain_enum_<scoped_b>
{
	using type = bool;
};
template <typename T>
struct base_pointers_ // remove_all_pointers of the unqualified, non-reference types
{
	using type = T;
};
#define POINTEE(T, U)                                                                                                  \
	template <>                                                                                                        \
	struct base_pointers_<T>                                                                                           \
	{                                                                                                                  \
		using type = U;                                                                                                \
	}
using vvcp = volatile void* const*;
using epvp = empty* volatile* const volatile*;
using i3p  = int (*)[3];
using fp0  = void (*)();
using fp1  = int (*)(int, ...) noexcept;
using fp2  = void (**)();
using f0   = void();
using f1   = int(int, ...) noexcept;
using i3   = int[3];
POINTEE(int*, int);
POINTEE(const int*, const int);
POINTEE(void*, void);
POINTEE(vvcp, volatile void);
POINTEE(char**, char);
POINTEE(epvp, empty);
POINTEE(scoped_i*, scoped_i);
POINTEE(i3p, i3);
POINTEE(fp0, f0);
POINTEE(fp1, f1);
POINTEE(fp2, f0);

template <typename F, int CV, int R>
static void transform()
{
	using B			  = typename F::type;
	using T			  = q_t<R, CV, B>;
	constexpr bool fn = has<F>(k_function);
	vf::state();
	// functions cannot be qualified; asking for it changes nothing
	eq("remove_cvref", same<muu::remove_cvref<T>, B>);
	eq("remove_cv", same<muu::remove_cv<T>, q_t<R, 0, B>>);
	eq("remove_const", same<muu::remove_const<T>, q_t<R, CV & 2, B>>);
	eq("remove_volatile", same<muu::remove_volatile<T>, q_t<R, CV & 1, B>>);
	eq("add_const", same<muu::add_const<T>, q_t<R, fn ? 0 : CV | 1, B>>);
	eq("add_volatile", same<muu::add_volatile<T>, q_t<R, fn ? 0 : CV | 2, B>>);
	eq("add_cv", same<muu::add_cv<T>, q_t<R, fn ? 0 : 3, B>>);
	eq("set_const true", same<muu::set_const<T, true>, q_t<R, fn ? 0 : CV | 1, B>>);
	eq("set_const false", same<muu::set_const<T, false>, q_t<R, CV & 2, B>>);
	eq("set_volatile true", same<muu::set_volatile<T, true>, q_t<R, fn ? 0 : CV | 2, B>>);
	eq("set_volatile false", same<muu::set_volatile<T, false>, q_t<R, CV & 1, B>>);
	eq("set_cv true", same<muu::set_cv<T, true>, q_t<R, fn ? 0 : 3, B>>);
	eq("set_cv false", same<muu::set_cv<T, false>, q_t<R, 0, B>>);
	eq("conditionally_add_const", same<muu::conditionally_add_const<T, true>, q_t<R, fn ? 0 : CV | 1, B>> && same<muu::conditionally_add_const<T, false>, T>);
	eq("conditionally_add_volatile",
	   same<muu::conditionally_add_volatile<T, true>, q_t<R, fn ? 0 : CV | 2, B>> && same<muu::conditionally_add_volatile<T, false>, T>);
	eq("conditionally_add_cv", same<muu::conditionally_add_cv<T, true>, q_t<R, fn ? 0 : 3, B>> && same<muu::conditionally_add_cv<T, false>, T>);
	eq("remove_lvalue_reference", same<muu::remove_lvalue_reference<T>, q_t<R == 1 ? 0 : R, CV, B>>);
	eq("remove_rvalue_reference", same<muu::remove_rvalue_reference<T>, q_t<R == 2 ? 0 : R, CV, B>>);
	eq("type_identity", same<muu::type_identity<T>, T>);
	if constexpr (!has<F>(k_noref))
		eq("make_cref", same<muu::make_cref<T>, q_t<1, fn ? 0 : 1, B>>);
	eq("remove_enum", same<muu::remove_enum<T>, q_t<R, CV, typename plain_enum_<B>::type>>);
	if constexpr (R == 0)
	{
		eq("remove_all_pointers", same<muu::remove_all_pointers<T>, std::conditional_t<F::rank == 0, T, typename base_pointers_<B>::type>>);
	}
	else
		eq("remove_all_pointers", same<muu::remove_all_pointers<T>, T>);
	// small and large extended floats
	constexpr bool small = same<B, muu::half> || (has<F>(k_float) && has<F>(k_extended) && F::size <= 4);
	constexpr bool large = has<F>(k_float) && has<F>(k_extended) && F::size >= 16;
	using P				 = q_t<R, CV, std::conditional_t<small, float, B>>;
	using D				 = q_t<R, CV, std::conditional_t<large, long double, B>>;
	if constexpr (!has<F>(k_incomplete) && !has<F>(k_function) && !same<B, void>)
	{
		eq("promote_if_small_float", same<muu::promote_if_small_float<T>, P>);
		eq("demote_if_large_float", same<muu::demote_if_large_float<T>, D>);
		eq("clamp_to_standard_float", same<muu::clamp_to_standard_float<T>, q_t<R, CV, std::conditional_t<small, float, std::conditional_t<large, long double, B>>>>);
	}
	// pointers rebased keep the qualifiers of what they point to
	if constexpr (R == 0 && !fn)
	{
		using ptr = T*;
		eq("rebase_pointer", same<muu::rebase_pointer<ptr, double>, cv_t<CV, double>*>);
		eq("rebase_pointer to void", same<muu::rebase_pointer<ptr, void>, cv_t<CV, void>*>);
		eq("rebase_pointer of const pointer", same<std::remove_cv_t<muu::rebase_pointer<T* const, char>>, cv_t<CV, char>*>);
		eq("rebase_pointer of volatile pointer", same<std::remove_cv_t<muu::rebase_pointer<T* volatile, char>>, cv_t<CV, char>*>);
		eq("rebase_pointer of const volatile pointer", same<std::remove_cv_t<muu::rebase_pointer<T* const volatile, char>>, cv_t<CV, char>*>);
		eq("rebase_pointer of reference", same<muu::rebase_pointer<ptr&, double>, cv_t<CV, double>*&>);
		eq("rebase_pointer of rvalue", same<muu::rebase_pointer<ptr&&, double>, cv_t<CV, double>*&&>);
	}
}
template <typename F, int CV, int R, bool = !(has<F>(k_nocv) && CV) && !(has<F>(k_noref) && (R || has<F>(k_function)))>
struct apply_transform
{
	static void run() { transform<F, CV, R>(); }
};
template <typename F, int CV, int R>
struct apply_transform<F, CV, R, false>
{
	static void run() {}
};

// ---- copying qualifiers ---------------------------------------------------------------------------------------------------
template <typename B, int CV, int R, typename B2, int CV2, int R2>
static void copy_q()
{
	using T	   = q_t<R, CV, B>;
	using From = q_t<R2, CV2, B2>;
	vf::state();
	eq("copy_const", same<muu::copy_const<T, From>, q_t<R, (CV & 2) | (CV2 & 1), B>>);
	eq("copy_volatile", same<muu::copy_volatile<T, From>, q_t<R, (CV & 1) | (CV2 & 2), B>>);
	eq("copy_cv", same<muu::copy_cv<T, From>, q_t<R, CV2, B>>);
	eq("copy_ref", same<muu::copy_ref<T, From>, q_t<R2, CV, B>>);
	eq("copy_cvref", same<muu::copy_cvref<T, From>, q_t<R2, CV2, B>>);
}

// ---- signs -------------------------------------------------------------------------------------------------------------------
template <typename T, typename S, typename U>
static void signs()
{
	vf::state();
	[]<int... I>(std::integer_sequence<int, I...>)
	{
		(eq("make_signed", same<muu::make_signed<q_t<I / 4, I % 4, T>>, q_t<I / 4, I % 4, S>>), ...);
		(eq("set_signed", same<muu::set_signed<q_t<I / 4, I % 4, T>, true>, q_t<I / 4, I % 4, S>>), ...);
		(eq("set_unsigned false", same<muu::set_unsigned<q_t<I / 4, I % 4, T>, false>, q_t<I / 4, I % 4, S>>), ...);
		(eq("copy_signed from int", same<muu::copy_signed<q_t<I / 4, I % 4, T>, int&>, q_t<I / 4, I % 4, S>>), ...);
		(eq("copy_unsigned from int", same<muu::copy_unsigned<q_t<I / 4, I % 4, T>, const int>, q_t<I / 4, I % 4, S>>), ...);
		if constexpr (!same<U, void>)
		{
			(eq("make_unsigned", same<muu::make_unsigned<q_t<I / 4, I % 4, T>>, q_t<I / 4, I % 4, U>>), ...);
			(eq("set_signed false", same<muu::set_signed<q_t<I / 4, I % 4, T>, false>, q_t<I / 4, I % 4, U>>), ...);
			(eq("set_unsigned", same<muu::set_unsigned<q_t<I / 4, I % 4, T>, true>, q_t<I / 4, I % 4, U>>), ...);
			(eq("copy_signed from unsigned", same<muu::copy_signed<q_t<I / 4, I % 4, T>, const unsigned&&>, q_t<I / 4, I % 4, U>>), ...);
			(eq("copy_unsigned from unsigned", same<muu::copy_unsigned<q_t<I / 4, I % 4, T>, unsigned long>, q_t<I / 4, I % 4, U>>), ...);
		}
	}
	(std::make_integer_sequence<int, 12>{});
}

// ---- sets of types -------------------------------------------------------------------------------------------------------------
template <size_t S, size_t A>
struct alignas(A) block
{
	char c[S];
};
template <size_t I>
struct set_;
#define SET(i, T, s, a)                                                                                                \
	template <>                                                                                                        \
	struct set_<i>                                                                                                     \
	{                                                                                                                  \
		using type					 = T;                                                                              \
		static constexpr size_t size = s, align = a;                                                                   \
	}
using b31 = block<3, 1>;
using b22 = block<2, 2>;
using b84 = block<8, 4>;
using b88 = block<8, 8>;
using b44 = block<4, 4>;
using fii = int(int);
SET(0, void, 0, 0);
SET(1, char, 1, 1);
SET(2, b31, 3, 1);
SET(3, b22, 2, 2);
SET(4, b84, 8, 4);
SET(5, b88, 8, 8);
SET(6, fii, 0, 0);
SET(7, b44, 4, 4);

template <size_t I0, size_t... IR>
static void set_word()
{
	[]<size_t... I>(std::index_sequence<I...>)
	{
	vf::state();
	constexpr size_t n		 = sizeof...(I);
	constexpr size_t size[]	 = { set_<I>::size... };
	constexpr size_t align[] = { set_<I>::align... };
	auto extreme = [&](auto before, const size_t* v)
	{
		size_t r = v[0];
		for (size_t i = 1; i < n; i++)
			if (before(v[i], r))
				r = v[i];
		return r;
	};
	auto more = [](size_t a, size_t b) { return a > b; };
	auto less = [](size_t a, size_t b) { return a < b; };
	// which one is chosen among equals is not specified, but it is one of the set
	using L	  = muu::largest<typename set_<I0>::type, typename set_<IR>::type...>;
	using S	  = muu::smallest<typename set_<I0>::type, typename set_<IR>::type...>;
	using M	  = muu::most_aligned<typename set_<I0>::type, typename set_<IR>::type...>;
	using A	  = muu::least_aligned<typename set_<I0>::type, typename set_<IR>::type...>;
	eq("largest is of the set", (same<L, typename set_<I>::type> || ...));
	eq("smallest is of the set", (same<S, typename set_<I>::type> || ...));
	eq("most_aligned is of the set", (same<M, typename set_<I>::type> || ...));
	eq("least_aligned is of the set", (same<A, typename set_<I>::type> || ...));
	num("size of largest", muu::total_size<L>, extreme(more, size));
	num("size of smallest", muu::total_size<S>, extreme(less, size));
	num("alignment of most_aligned", muu::alignment_of<M>, extreme(more, align));
	num("alignment of least_aligned", muu::alignment_of<A>, extreme(less, align));
	num("total_size", muu::total_size<typename set_<I>::type...>, (size_t{} + ... + set_<I>::size));
	// sameness
	constexpr size_t idx[] = { I... };
	auto sameness = [&]<size_t F, size_t... R>(std::index_sequence<F, R...>)
	{
		bool any = false, all = true;
		for (size_t i = 1; i < n; i++)
		{
			any = any || idx[i] == idx[0];
			all = all && idx[i] == idx[0];
		}
		is("any_same", muu::any_same<typename set_<F>::type, typename set_<R>::type...>, any);
		is("all_same", muu::all_same<typename set_<F>::type, typename set_<R>::type...>, all);
	};
	sameness(std::index_sequence<I...>{});
	// positions
	auto position = [&]<size_t P>(std::integral_constant<size_t, P>)
	{
		constexpr size_t first = []
		{
			constexpr size_t id[] = { I... };
			for (size_t i = 0; i < n; i++)
				if (id[i] == id[P])
					return i;
			return size_t{};
		}();
		constexpr size_t at[] = { I... };
		using T				  = typename set_<at[P]>::type;
		num("index_of_type", muu::index_of_type<T, typename set_<I>::type...>, first);
		eq("type_at_index", same<muu::type_at_index<P, typename set_<I>::type...>, T>);
	};
	[&]<size_t... P>(std::index_sequence<P...>) { (position(std::integral_constant<size_t, P>{}), ...); }
	(std::make_index_sequence<n>{});
	}
	(std::index_sequence<I0, IR...>{});
}
template <size_t Len, size_t W, size_t... P>
static void set_words1(std::index_sequence<P...>)
{
	constexpr auto digit = [](size_t w, size_t p)
	{
		while (p--)
			w /= 8;
		return w % 8;
	};
	vf::at(Len, W);
	set_word<digit(W, P)...>();
}
template <size_t Len, size_t... W>
static void set_words(std::index_sequence<W...>)
{
	(set_words1<Len, W>(std::make_index_sequence<Len>{}), ...);
}

// ---- any_ / all_ of the unary traits ---------------------------------------------------------------------------------------------
#define EACH_FOLD(X)                                                                                                   \
	X(enum) X(scoped_enum) X(legacy_enum) X(unsigned) X(signed) X(integral) X(integer) X(floating_point) X(arithmetic) X(const) X(volatile)       \
		X(cv) X(cvref) X(unbounded_array) X(bounded_array) X(array) X(function) X(function_pointer)
template <typename... T>
static void folds()
{
	vf::state();
#define FOLD(n)                                                                                                        \
	{                                                                                                                  \
		bool any = false, all = sizeof...(T) > 0;                                                                      \
		for (bool b : std::initializer_list<bool>{ muu::is_##n<T>... })                                                \
		{                                                                                                              \
			any = any || b;                                                                                            \
			all = all && b;                                                                                            \
		}                                                                                                              \
		is("any_" #n, muu::any_##n<T...>, any);                                                                        \
		is("all_" #n, muu::all_##n<T...>, all);                                                                        \
	}
	EACH_FOLD(FOLD)
}
template <size_t I>
struct fold_type_;
#define FT(i, ...)                                                                                                     \
	template <>                                                                                                        \
	struct fold_type_<i>                                                                                               \
	{                                                                                                                  \
		using type = __VA_ARGS__;                                                                                      \
	}
using cvarr = const volatile int (&)[2];
using uarr	= unsigned (&&)[];
using fnr	= void (&)();
using fpr	= void (*const&)();
FT(0, int);
FT(1, const unsigned&);
FT(2, volatile double);
FT(3, scoped_i&&);
FT(4, const volatile legacy_u);
FT(5, cvarr);
FT(6, uarr);
FT(7, fnr);
FT(8, fpr);
FT(9, void);
FT(10, muu::half&);
template <size_t... I>
static void folds_word()
{
	folds<typename fold_type_<I>::type...>();
}
template <size_t Len, size_t... W>
static void folds_words(std::index_sequence<W...>)
{
	if constexpr (Len == 0)
		(vf::at(9999), folds<>());
	else if constexpr (Len == 1)
		((vf::at(W), folds_word<W>()), ...);
	else if constexpr (Len == 2)
		((vf::at(W / 11, W % 11), folds_word<W / 11, W % 11>()), ...);
	else
		((vf::at(W / 121, W / 11 % 11, W % 11), folds_word<W / 121, W / 11 % 11, W % 11>()), ...);
}

// ---- conversions -----------------------------------------------------------------------------------------------------------------
// To types constructed from From types by: nothing, explicit, implicit; throwing or not
struct from_t
{};
template <int How, bool Nx>
struct to_t;
template <bool Nx>
struct to_t<0, Nx>
{};
template <bool Nx>
struct to_t<1, Nx>
{
	explicit to_t(from_t) noexcept(Nx);
};
template <bool Nx>
struct to_t<2, Nx>
{
	to_t(from_t) noexcept(Nx);
};
template <size_t I> // 0,1 none; 2 explicit throwing; 3 explicit nothrow; 4 implicit throwing; 5 implicit nothrow
using to_i = to_t<I / 2, I % 2>;
template <size_t... I>
static void conversions()
{
	vf::state();
	constexpr size_t n = sizeof...(I);
	bool any_i = false, all_i = n > 0, any_e = false, all_e = n > 0, any = false, all = n > 0;
	bool any_in = false, all_in = n > 0, any_en = false, all_en = n > 0, any_n = false, all_n = n > 0;
	for (size_t i : std::initializer_list<size_t>{ I... })
	{
		bool im = i / 2 == 2, ex = i / 2 == 1, nx = i % 2;
		any_i |= im, all_i &= im;
		any_e |= ex, all_e &= ex;
		any |= im || ex, all &= im || ex;
		any_in |= im && nx, all_in &= im && nx;
		any_n |= (im || ex) && nx, all_n &= (im || ex) && nx;
		any_en |= ex && nx, all_en &= ex && nx;
	}
	is("is_implicitly_convertible_to_any", muu::is_implicitly_convertible_to_any<from_t, to_i<I>...>, any_i);
	is("is_implicitly_convertible_to_all", muu::is_implicitly_convertible_to_all<from_t, to_i<I>...>, all_i);
	is("is_explicitly_convertible_to_any", muu::is_explicitly_convertible_to_any<from_t, to_i<I>...>, any_e);
	is("is_explicitly_convertible_to_all", muu::is_explicitly_convertible_to_all<from_t, to_i<I>...>, all_e);
	is("is_convertible_to_any", muu::is_convertible_to_any<from_t, to_i<I>...>, any);
	is("is_convertible_to_all", muu::is_convertible_to_all<from_t, to_i<I>...>, all);
	is("is_implicitly_nothrow_convertible_to_any", muu::is_implicitly_nothrow_convertible_to_any<from_t, to_i<I>...>, any_in);
	is("is_implicitly_nothrow_convertible_to_all", muu::is_implicitly_nothrow_convertible_to_all<from_t, to_i<I>...>, all_in);
	is("is_explicitly_nothrow_convertible_to_any", muu::is_explicitly_nothrow_convertible_to_any<from_t, to_i<I>...>, any_en);
	is("is_explicitly_nothrow_convertible_to_all", muu::is_explicitly_nothrow_convertible_to_all<from_t, to_i<I>...>, all_en);
	is("is_nothrow_convertible_to_any", muu::is_nothrow_convertible_to_any<from_t, to_i<I>...>, any_n);
	is("is_nothrow_convertible_to_all", muu::is_nothrow_convertible_to_all<from_t, to_i<I>...>, all_n);
	if constexpr (n == 1)
	{
		is("is_implicitly_convertible", muu::is_implicitly_convertible<from_t, to_i<I>...>, any_i);
		is("is_explicitly_convertible", muu::is_explicitly_convertible<from_t, to_i<I>...>, any_e);
		is("is_convertible", muu::is_convertible<from_t, to_i<I>...>, any);
		is("is_implicitly_nothrow_convertible", muu::is_implicitly_nothrow_convertible<from_t, to_i<I>...>, any_in);
		is("is_explicitly_nothrow_convertible", muu::is_explicitly_nothrow_convertible<from_t, to_i<I>...>, any_en);
		is("is_nothrow_convertible", muu::is_nothrow_convertible<from_t, to_i<I>...>, any_n);
	}
}
template <int How, bool Nx>
struct source;
struct target
{};
template <bool Nx>
struct source<0, Nx>
{};
template <bool Nx>
struct source<1, Nx>
{
	explicit operator target() const noexcept(Nx);
};
template <bool Nx>
struct source<2, Nx>
{
	operator target() const noexcept(Nx);
};
template <size_t I>
using from_i = source<I / 2, I % 2>;
template <size_t... I>
static void conversions_from()
{
	vf::state();
	constexpr size_t n = sizeof...(I);
	bool all_i = n > 0, all_e = n > 0, all = n > 0, all_in = n > 0, all_en = n > 0, all_n = n > 0;
	for (size_t i : std::initializer_list<size_t>{ I... })
	{
		bool im = i / 2 == 2, ex = i / 2 == 1, nx = i % 2;
		all_i &= im;
		all_e &= ex;
		all &= im || ex;
		all_in &= im && nx;
		all_n &= (im || ex) && nx;
		all_en &= ex && nx;
	}
	is("all_implicitly_convertible_to", muu::all_implicitly_convertible_to<target, from_i<I>...>, all_i);
	is("all_explicitly_convertible_to", muu::all_explicitly_convertible_to<target, from_i<I>...>, all_e);
	is("all_convertible_to", muu::all_convertible_to<target, from_i<I>...>, all);
	is("all_implicitly_nothrow_convertible_to", muu::all_implicitly_nothrow_convertible_to<target, from_i<I>...>, all_in);
	is("all_explicitly_nothrow_convertible_to", muu::all_explicitly_nothrow_convertible_to<target, from_i<I>...>, all_en);
	is("all_nothrow_convertible_to", muu::all_nothrow_convertible_to<target, from_i<I>...>, all_n);
}

// ---- inheritance ----------------------------------------------------------------------------------------------------------------
struct h0
{};
struct h1 : h0
{};
struct h2 : private h1
{};
struct h3
{};
struct h4 : virtual h0, h3
{};
struct h5 : h2, h4
{};
template <size_t I>
struct h_;
#define HT(i, T)                                                                                                       \
	template <>                                                                                                        \
	struct h_<i>                                                                                                       \
	{                                                                                                                  \
		using type = T;                                                                                                \
	}
HT(0, h0);
HT(1, h1);
HT(2, h2);
HT(3, h3);
HT(4, h4);
HT(5, h5);
HT(6, int);
HT(7, uni);
static constexpr bool inherits[8][8] = { { 0 },
										 { 1 },
										 { 1, 1 },
										 { 0 },
										 { 1, 0, 0, 1 },
										 { 1, 1, 1, 1, 1 },
										 { 0 },
										 { 0 } };
template <size_t C, size_t P, size_t... P2>
static void inheritance()
{
	vf::at(C, P, P2...);
	vf::state();
	[]<int... I>(std::integer_sequence<int, I...>)
	{
		(is("inherits_from", muu::inherits_from<q_t<I / 4, I % 4, typename h_<C>::type>, typename h_<P>::type>, inherits[C][P]), ...);
		(is("inherits_from", muu::inherits_from<typename h_<C>::type, q_t<I / 4, I % 4, typename h_<P>::type>>, inherits[C][P]), ...);
	}
	(std::make_integer_sequence<int, 12>{});
	is("inherits_from_any", muu::inherits_from_any<typename h_<C>::type, typename h_<P>::type, typename h_<P2>::type&...>, (inherits[C][P] || ... || inherits[C][P2]));
	is("inherits_from_all", muu::inherits_from_all<typename h_<C>::type, typename h_<P>::type, const typename h_<P2>::type...>,
	   (inherits[C][P] && ... && inherits[C][P2]));
}

template <template <typename, int, int, bool> typename What, typename F>
static void one_fact(int k)
{
	[&]<int... I>(std::integer_sequence<int, I...>)
	{ ((vf::at(k, I % 4, I / 4), What<F, I % 4, I / 4, !(has<F>(k_nocv) && I % 4) && !(has<F>(k_noref) && (I / 4 || has<F>(k_function)))>::run()), ...); }
	(std::make_integer_sequence<int, 12>{});
}
template <template <typename, int, int, bool> typename What, typename... F>
static void every(list<F...>)
{
	int k = 0;
	(one_fact<What, F>(k++), ...);
}
template <typename F>
static void sizes()
{
	if constexpr (!has<F>(k_nosize | k_incomplete))
		static_assert(sizeof(typename F::type) == F::size && alignof(typename F::type) == F::align, "the facts are wrong");
}
template <typename... F>
static void all_sizes(list<F...>)
{
	(sizes<F>(), ...);
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	all_sizes(facts{});
#if GRP == 0
	if (vf::group("classify"))
		every<apply_classify>(facts{});
	if (vf::group("folds"))
	{
		folds_words<0>(std::make_index_sequence<1>{});
		folds_words<1>(std::make_index_sequence<11>{});
		folds_words<2>(std::make_index_sequence<121>{});
#ifdef DEEP
		folds_words<3>(std::make_index_sequence<1331>{});
#endif
	}
	if (vf::group("bits"))
	{
		vf::at(0);
		eq("unsigned_integer",
		   same<muu::unsigned_integer<8>, unsigned char> && same<muu::unsigned_integer<16>, unsigned short> && same<muu::unsigned_integer<32>, unsigned>
			   && same<muu::unsigned_integer<64>, unsigned long> && same<muu::unsigned_integer<128>, unsigned __int128>);
		eq("signed_integer",
		   same<muu::signed_integer<8>, signed char> && same<muu::signed_integer<16>, short> && same<muu::signed_integer<32>, int>
			   && same<muu::signed_integer<64>, long> && same<muu::signed_integer<128>, __int128>);
		eq("always_false", !muu::always_false<> && !muu::always_false<int> && !muu::always_false<void, int>);
	}
#elif GRP == 1
	if (vf::group("transform"))
		every<apply_transform>(facts{});
#elif GRP == 2
	if (vf::group("copy"))
	{
		[]<int... I>(std::integer_sequence<int, I...>)
		{
			((vf::at(0, I), copy_q<int, I % 4, I / 4 % 3, char, I / 12 % 4, I / 48>()), ...);
			((vf::at(1, I), copy_q<int*, I % 4, I / 4 % 3, int[3], I / 12 % 4, I / 48>()), ...);
			((vf::at(2, I), copy_q<int[2], I % 4, I / 4 % 3, empty, I / 12 % 4, I / 48>()), ...);
			((vf::at(3, I), copy_q<scoped_i, I % 4, I / 4 % 3, void*, I / 12 % 4, I / 48>()), ...);
		}
		(std::make_integer_sequence<int, 144>{});
	}
	if (vf::group("signs"))
	{
		vf::at(0);
		signs<char, signed char, unsigned char>();
		vf::at(1);
		signs<signed char, signed char, unsigned char>();
		vf::at(2);
		signs<unsigned char, signed char, unsigned char>();
		vf::at(3);
		signs<short, short, unsigned short>();
		vf::at(4);
		signs<unsigned short, short, unsigned short>();
		vf::at(5);
		signs<int, int, unsigned>();
		vf::at(6);
		signs<unsigned, int, unsigned>();
		vf::at(7);
		signs<long, long, unsigned long>();
		vf::at(8);
		signs<unsigned long, long, unsigned long>();
		vf::at(9);
		signs<long long, long long, unsigned long long>();
		vf::at(10);
		signs<unsigned long long, long long, unsigned long long>();
		vf::at(11);
		signs<__int128, __int128, unsigned __int128>();
		vf::at(12);
		signs<unsigned __int128, __int128, unsigned __int128>();
		vf::at(13);
		signs<wchar_t, wchar_t, unsigned>();
		vf::at(14);
		signs<float, float, void>();
		vf::at(15);
		signs<double, double, void>();
		vf::at(16);
		signs<long double, long double, void>();
		vf::at(17);
		signs<muu::half, muu::half, void>();
	}
	if (vf::group("inheritance"))
	{
		[]<size_t... I>(std::index_sequence<I...>) { (inheritance<I / 8, I % 8>(), ...); }
		(std::make_index_sequence<64>{});
		[]<size_t... I>(std::index_sequence<I...>) { (inheritance<I / 64, I / 8 % 8, I % 8>(), ...); }
		(std::make_index_sequence<512>{});
	}
#elif GRP == 3
	if (vf::group("sets"))
	{
		set_words<1>(std::make_index_sequence<8>{});
		set_words<2>(std::make_index_sequence<64>{});
		set_words<3>(std::make_index_sequence<512>{});
#ifdef DEEP
		set_words<4>(std::make_index_sequence<4096>{});
#endif
	}
	if (vf::group("conversions"))
	{
		vf::at(0);
		conversions<>();
		conversions_from<>();
		[]<size_t... I>(std::index_sequence<I...>) { ((vf::at(1, I), conversions<I>(), conversions_from<I>()), ...); }
		(std::make_index_sequence<6>{});
		[]<size_t... I>(std::index_sequence<I...>) { ((vf::at(2, I), conversions<I / 6, I % 6>(), conversions_from<I / 6, I % 6>()), ...); }
		(std::make_index_sequence<36>{});
		[]<size_t... I>(std::index_sequence<I...>)
		{ ((vf::at(3, I), conversions<I / 36, I / 6 % 6, I % 6>(), conversions_from<I / 36, I / 6 % 6, I % 6>()), ...); }
		(std::make_index_sequence<216>{});
	}
#endif
	return vf::finish();
}
