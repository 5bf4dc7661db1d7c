// D13: type_name spells the type it names, for every type a bounded grammar builds; different types have different names.
// The expected spelling is composed at run time from the construction steps, not from the type.
#include "muu/size_t_literals.h"
#include "muu/type_name.h"
#include "vf.h"
#include <array>
#include <climits>
#include <map>
#include <utility>
#include <vector>

struct plain
{};
enum class colour
{
	red
};
namespace deep::er
{
	class thing
	{};
	template <typename T>
	struct cage
	{
		struct inner
		{};
	};
}
struct renamed
{};
namespace muu
{
	template <>
	inline constexpr auto type_name<renamed> = fixed_string{ "new_name" };
}
template <typename T>
struct one;
template <typename T, typename U>
struct two;
template <typename T, typename U, typename V>
struct three;
template <typename... T>
struct many;
template <auto... N>
struct vals;
template <int... N>
struct ints;
template <size_t N>
struct sized;
template <bool B>
struct flag;
template <typename T, auto... N>
struct tvals;
template <typename T, size_t N>
struct tsized;
template <typename T, typename U, auto... N>
struct ttvals;
template <typename T, typename U, typename V, auto... N>
struct tttvals;

static std::map<std::string, std::string> seen; // name -> what it was built from
template <typename T>
std::string name()
{
	return std::string(muu::type_name<T>.data(), muu::type_name<T>.size());
}
template <typename T>
void check(const std::string& want, bool unique = true)
{
	const std::string got = name<T>();
	vf::text(want.c_str());
	vf::state();
	vf::trans();
	VF_CHECK(got == want, "type_name is '%s', expected '%s'", got.c_str(), want.c_str());
	if (unique)
	{
		auto r = seen.emplace(got, want);
		VF_CHECK(r.second || r.first->second == want, "'%s' names both %s and %s", got.c_str(), r.first->second.c_str(), want.c_str());
	}
}

// ---- declarators: base, then steps. 0 const, 1 volatile, 2 *, 3 &, 4 &&, 5 [2], 6 [10], 7 []
// w: spelling being composed: lead (base, cv, pointers), ext (array extents), ref
struct words
{
	std::string base, ext, ref;
	bool c = false, v = false, ptr = false;
};
static std::string cv(const words& w)
{
	return std::string(w.c ? "const" : "") + (w.c && w.v ? " " : "") + (w.v ? "volatile" : "");
}
static std::string lead(const words& w)
{
	const auto q = cv(w);
	if (q.empty())
		return w.base;
	return w.ptr ? w.base + " " + q : q + " " + w.base;
}
static std::string full(const words& w)
{
	if (w.ext.empty())
		return lead(w) + w.ref;
	return lead(w) + (w.ref.empty() ? "" : "(" + w.ref + ")") + w.ext;
}
template <int Op, typename T>
constexpr bool can = Op == 0   ? !std::is_reference_v<T> && !std::is_const_v<std::remove_all_extents_t<T>> && !std::is_const_v<T>
				   : Op == 1 ? !std::is_reference_v<T> && !std::is_volatile_v<std::remove_all_extents_t<T>> && !std::is_volatile_v<T>
				   : Op == 2 ? !std::is_reference_v<T> && !std::is_array_v<T> // pointers to arrays are not covered by type_name
				   : Op == 3 || Op == 4 ? !std::is_reference_v<T> && !std::is_void_v<T>
				   : Op == 5 || Op == 6
					   ? !std::is_reference_v<T> && !std::is_void_v<T> && (!std::is_array_v<T> || std::extent_v<T> != 0)
					   : !std::is_reference_v<T> && !std::is_void_v<T> && (!std::is_array_v<T> || std::extent_v<T> != 0);
template <int Op, typename T>
struct apply;
template <typename T>
struct apply<0, T>
{
	using type = const T;
};
template <typename T>
struct apply<1, T>
{
	using type = volatile T;
};
template <typename T>
struct apply<2, T>
{
	using type = T*;
};
template <typename T>
struct apply<3, T>
{
	using type = T&;
};
template <typename T>
struct apply<4, T>
{
	using type = T&&;
};
template <typename T>
struct apply<5, T>
{
	using type = T[2];
};
template <typename T>
struct apply<6, T>
{
	using type = T[10];
};
template <typename T>
struct apply<7, T>
{
	using type = T[];
};
static words step(words w, int op)
{
	switch (op)
	{
		case 0: w.c = true; break;
		case 1: w.v = true; break;
		case 2:
			w.base = lead(w) + "*";
			w.c = w.v = false;
			w.ptr	  = true;
			break;
		case 3: w.ref = "&"; break;
		case 4: w.ref = "&&"; break;
		case 5: w.ext = "[2]" + w.ext; break;
		case 6: w.ext = "[10]" + w.ext; break;
		case 7: w.ext = "[]" + w.ext; break;
	}
	return w;
}
template <int Depth, typename T>
void walk(const words& w)
{
	check<T>(full(w));
	if constexpr (Depth > 0)
	{
		[&]<int... Op>(std::integer_sequence<int, Op...>)
		{
			(
				[&]
				{
					if constexpr (can<Op, T>)
						walk<Depth - 1, typename apply<Op, T>::type>(step(w, Op));
				}(),
				...);
		}(std::make_integer_sequence<int, 8>{});
	}
}
template <typename T, int Depth = 4>
void base(const char* n)
{
	words w;
	w.base = n;
	walk<Depth, T>(w);
}

// ---- integers as template arguments and extents
template <auto N>
void value()
{
	using T				= decltype(N);
	std::string want	= std::to_string(N);
	if constexpr (std::is_same_v<T, bool>)
		want = N ? "true" : "false";
	check<vals<N>>("vals<" + want + ">", false);
	check<vals<N, 7>>("vals<" + want + ", 7>", false);
	check<vals<7, N>>("vals<7, " + want + ">", false);
	check<vals<1, N, 0, N>>("vals<1, " + want + ", 0, " + want + ">", false);
	check<tvals<int, N>>("tvals<int, " + want + ">", false);
	check<ttvals<int, plain*, N>>("ttvals<int, plain*, " + want + ">", false);
	check<tttvals<int, float, char, N, N>>("tttvals<int, float, char, " + want + ", " + want + ">", false);
	check<one<vals<N>>>("one<vals<" + want + ">>", false);
	if constexpr (!std::is_same_v<T, bool> && N > 0 && N < 100000)
	{
		check<int[N]>("int[" + want + "]", false);
		check<int (&)[N]>("int(&)[" + want + "]", false);
		check<int[3][N][2]>("int[3][" + want + "][2]", false);
	}
	if constexpr (!std::is_same_v<T, bool> && N >= 0)
	{
		check<sized<N>>("sized<" + want + ">", false);
		check<tsized<plain, N>>("tsized<plain, " + want + ">", false);
		check<std::array<char, N>>("std::array<char, " + want + ">", false);
	}
	if constexpr (!std::is_same_v<T, bool> && N >= INT_MIN && N <= INT_MAX)
		check<ints<N, static_cast<int>(N)>>("ints<" + want + ", " + want + ">", false);
}
template <typename T, T... N>
void each()
{
	(value<N>(), ...);
}

// ---- templates of templates: a tree of template applications, both spelled and built
template <int Depth, typename T>
void nest(const std::string& n)
{
	check<T>(n);
	check<T* const>(n + "* const");
	if constexpr (Depth > 0)
	{
		nest<Depth - 1, one<T>>("one<" + n + ">");
		nest<Depth - 1, two<T, int>>("two<" + n + ", int>");
		nest<Depth - 1, two<const one<T>&, T>>("two<const one<" + n + ">&, " + n + ">");
		nest<Depth - 1, three<T, T*, void>>("three<" + n + ", " + n + "*, void>");
		nest<Depth - 1, many<T>>("many<" + n + ">");
		nest<Depth - 1, many<char, T, T, T, one<T>>>("many<char, " + n + ", " + n + ", " + n + ", one<" + n + ">>");
		nest<Depth - 1, muu::type_list<T, muu::type_list<>>>("muu::type_list<" + n + ", muu::type_list<>>");
		nest<Depth - 1, deep::er::cage<T>>("deep::er::cage<" + n + ">");
		nest<Depth - 1, tvals<T, 1, 2>>("tvals<" + n + ", 1, 2>");
		nest<Depth - 1, T*>(n + "*");
	}
}

// ---- functions
template <bool First, typename R, typename... P>
void functions(const std::string& r, const std::string& p)
{
	check<R(P...)>(r + "(" + p + ")");
	check<R(P...) noexcept>(r + "(" + p + ") noexcept");
	const std::string v = p.empty() ? "..." : p + ", ...";
	check<R(P..., ...)>(r + "(" + v + ")");
	check<R(P..., ...) noexcept>(r + "(" + v + ") noexcept");
#define FP(dec, txt)                                                                                                   \
	check<R(dec)(P...)>(r + "(" txt ")(" + p + ")");                                                                     \
	check<R(dec)(P...) noexcept>(r + "(" txt ")(" + p + ") noexcept");                                                   \
	check<R(dec)(P..., ...)>(r + "(" txt ")(" + v + ")");                                                                \
	check<R(dec)(P..., ...) noexcept>(r + "(" txt ")(" + v + ") noexcept")
	FP(*, "*");
	FP(*const, "*const");
	FP(*volatile, "*volatile");
	FP(*const volatile, "*const volatile");
	FP(&, "&");
	check<one<R (*)(P...)>>("one<" + r + "(*)(" + p + ")>");
	check<many<R (*)(P...), int>>("many<" + r + "(*)(" + p + "), int>");
	if constexpr (sizeof...(P) < 3)
	{
		const std::string s = p.empty() ? "" : p + ", ";
		functions<false, R, P..., int>(r, s + "int");
		functions<false, R, P..., const plain*>(r, s + "const plain*");
		functions<false, R, P..., one<char>&&>(r, s + "one<char>&&");
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
#if GRP == 0
	if (vf::group("declarator"))
	{
		base<int>("int");
		base<plain, 3>("plain");
		base<renamed, 3>("new_name");
		base<one<char>, 3>("one<char>");
	}
#elif GRP == 1
	if (vf::group("scalar"))
	{
		base<char, 1>("char");
		base<signed char, 1>("signed char");
		base<unsigned char, 1>("unsigned char");
		base<wchar_t, 1>("wchar_t");
		base<char16_t, 1>("char16_t");
		base<char32_t, 1>("char32_t");
		base<char8_t, 1>("char8_t");
		base<bool, 1>("bool");
		base<short, 1>("short");
		base<unsigned short, 1>("unsigned short");
		base<unsigned, 1>("unsigned int");
		base<long, 1>("long");
		base<unsigned long, 1>("unsigned long");
		base<long long, 1>("long long");
		base<unsigned long long, 1>("unsigned long long");
		base<float, 1>("float");
		base<double, 1>("double");
		base<long double, 1>("long double");
		base<void, 2>("void");
		base<colour, 2>("colour");
		base<deep::er::thing, 2>("deep::er::thing");
		base<std::string_view, 2>("std::string_view");
		base<muu::span<const int>, 1>("muu::span<const int>");
		base<std::vector<std::vector<char>>, 1>(name<std::vector<std::vector<char>>>().c_str());
		base<std::array<one<int>, 4>, 2>("std::array<one<int>, 4>");
	}
	if (vf::group("value"))
	{
		each<int, 0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 109, 110, 200, 999, 1000, 1001, 9999, 10000, 65535, 65536, 2147483647, -1, -2, -9,
			 -10, -11, -99, -100, -101, -1000, -2147483647, INT_MIN>();
		each<unsigned, 0u, 5u, 10u, 4294967295u, 4294967290u, 4000000000u>();
		each<long long, 0ll, 10ll, -10ll, 9223372036854775807ll, 1000000000000ll, -1000000000001ll, -9223372036854775807ll, LLONG_MIN>();
		each<size_t, 0, 10, 18446744073709551615ull, 10000000000000000000ull, 9999999999999999999ull>();
		each<signed char, 0, 1, 127, -1, -100, -128>();
		each<unsigned char, 0, 9, 10, 100, 199, 200, 255>();
		each<short, 0, 32767, -32768, -10>();
		each<bool, true, false>();
		check<flag<true>>("flag<true>");
		check<flag<false>>("flag<false>");
		check<vals<>>("vals<>");
		check<vals<true, false, 1>>("vals<true, false, 1>");
	}
#elif GRP == 2
	if (vf::group("nested"))
	{
		nest<2, int>("int");
		nest<2, plain>("plain");
		nest<2, many<>>("many<>");
		nest<1, renamed>("new_name");
		check<tvals<int>>("tvals<int>");
	}
	if (vf::group("list"))
	{
		auto l = [](auto v) { return std::string(v.data(), v.size()); };
		vf::at(0);
		VF_CHECK(l(muu::type_name_list<>).empty(), "type_name_list of nothing");
		VF_CHECK(l(muu::type_name_list<int>) == "int", "type_name_list of one");
		VF_CHECK(l(muu::type_name_list<int, one<char>>) == "int, one<char>", "type_name_list of two");
		VF_CHECK(l(muu::type_name_list<int, renamed*, void>) == "int, new_name*, void", "type_name_list of three");
		VF_CHECK(l(muu::type_name_list<int, char, void, float, int, bool>) == "int, char, void, float, int, bool", "type_name_list of six");
		VF_CHECK(l(muu::type_name_list<int, char, void, float, int>) == "int, char, void, float, int", "type_name_list of five");
	}
#elif GRP == 3
	if (vf::group("function"))
	{
		functions<true, void>("void", "");
		functions<true, const plain*>("const plain*", "");
	}
#endif
	return vf::finish();
}
