// S08 fixed_string against std::basic_string.
#include "vf.h"
#include <muu/size_t_literals.h>
#include <muu/fixed_string.h>
#include <string>
#include <sstream>
using namespace muu;

namespace
{
	template <typename C>
	constexpr C alpha[4] = { C('a'), C('b'), C(0), C(-1) };
	template <typename C>
	constexpr int type_of = std::is_same_v<C, char>		? 0
						  : std::is_same_v<C, wchar_t>	? 1
						  : std::is_same_v<C, char16_t> ? 2
						  : std::is_same_v<C, char32_t> ? 3
														: 4;

	constexpr size_t ipow(size_t b, size_t e)
	{
		return e ? b * ipow(b, e - 1) : 1;
	}

	template <typename C, size_t L>
	constexpr fixed_string<C, L> nth(size_t n)
	{
		fixed_string<C, L> s(C('z'));
		for (size_t i = 0; i < L; i++, n /= 4)
			s[i] = alpha<C>[n % 4];
		return s;
	}
	template <typename C, size_t L>
	std::basic_string<C> model(size_t n)
	{
		std::basic_string<C> s;
		for (size_t i = 0; i < L; i++, n /= 4)
			s += alpha<C>[n % 4];
		return s;
	}

	template <typename C, size_t L>
	void same(const fixed_string<C, L>& s, const std::basic_string<C>& m, const char* what)
	{
		vf::trans();
		bool eq = s.size() == m.size() && s.length() == m.size() && s.empty() == m.empty() && (bool)s == !m.empty()
			   && s.view() == m && std::basic_string_view<C>(s) == m && s.data()[L] == C(0) && s.c_str() == s.data();
		VF_CHECK(eq, "%s: content, length or terminator differs (length %zu, expected %zu)", what, s.size(), m.size());
	}

	int sign(int v)
	{
		return (v > 0) - (v < 0);
	}

	// ------------------------------------------------------------------------------------------------ pairs
	template <typename C, size_t A, size_t B>
	void pairs()
	{
		for (size_t i = 0; i < ipow(4, A); i++)
			for (size_t j = 0; j < ipow(4, B); j++)
			{
				vf::at(type_of<C>, A, B, (int64_t)i, (int64_t)j);
				const auto a = nth<C, A>(i);
				const auto b = nth<C, B>(j);
				const auto x = model<C, A>(i), y = model<C, B>(j);
				const int c	 = sign(x.compare(y));
				vf::state();
				vf::trans(11);
				VF_CHECK(sign(fixed_string<C, A>::compare(a, b)) == c && sign(a.compare(b)) == c, "compare() disagrees");
				VF_CHECK((a == b) == (c == 0) && (a != b) == (c != 0), "equality disagrees");
				VF_CHECK((a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0),
						 "ordering disagrees");
#ifdef __cpp_impl_three_way_comparison
				if constexpr (A == B)
				{
					const auto o = a <=> b;
					VF_CHECK((o < 0) == (c < 0) && (o > 0) == (c > 0) && (o == 0) == (c == 0), "<=> disagrees");
				}
#endif
				same(a + b, x + y, "operator+");
				if (i == j && A == B)
				{
					VF_CHECK(a.compare(a) == 0 && a == a && !(a != a) && !(a < a) && a <= a && !(a > a) && a >= a,
							 "comparison with itself");
				}
			}
	}
	// the same relation evaluated at compile time
	template <typename C, size_t A, size_t B>
	constexpr size_t static_pairs()
	{
		size_t bad = 0;
		for (size_t i = 0; i < ipow(4, A); i++)
			for (size_t j = 0; j < ipow(4, B); j++)
			{
				const auto a = nth<C, A>(i);
				const auto b = nth<C, B>(j);
				const int c	 = a.view().compare(b.view());
				bad += (a == b) != (c == 0) || (a < b) != (c < 0) || (a > b) != (c > 0) || (a <= b) != (c <= 0)
					|| (a >= b) != (c >= 0) || (a != b) != (c != 0) || (a.compare(b) < 0) != (c < 0);
			}
		return bad;
	}

	// ------------------------------------------------------------------------------------------------ unary
	template <typename C, size_t L>
	void unary()
	{
		for (size_t n = 0; n < ipow(4, L); n++)
		{
			vf::at(type_of<C>, L, (int64_t)n);
			vf::state();
			auto s		  = nth<C, L>(n);
			const auto& k = s;
			const auto m  = model<C, L>(n);
			same(s, m, "copy");
			for (C c : alpha<C>)
			{
				same(s + c, m + c, "string + character");
				same(c + s, c + m, "character + string");
			}
			if constexpr (L > 0)
			{
				VF_CHECK(s.front() == m.front() && s.back() == m.back() && k.front() == m.front() && k.back() == m.back(),
						 "front/back");
				VF_CHECK(s.template get<0>() == m[0] && k.template get<L - 1>() == m[L - 1], "get<>()");
				for (size_t i = 0; i < L; i++)
					VF_CHECK(s[i] == m[i] && k[i] == m[i] && s.data()[i] == m[i], "operator[]");
			}
			VF_CHECK(std::basic_string<C>(s.begin(), s.end()) == m && std::basic_string<C>(k.begin(), k.end()) == m
						 && std::basic_string<C>(k.cbegin(), k.cend()) == m
						 && std::basic_string<C>(begin(s), end(s)) == m && std::basic_string<C>(begin(k), end(k)) == m
						 && std::basic_string<C>(cbegin(k), cend(k)) == m,
					 "forward iteration");
			const std::basic_string<C> r(m.rbegin(), m.rend());
			VF_CHECK(std::basic_string<C>(s.rbegin(), s.rend()) == r && std::basic_string<C>(k.rbegin(), k.rend()) == r
						 && std::basic_string<C>(k.crbegin(), k.crend()) == r
						 && std::basic_string<C>(rbegin(s), rend(s)) == r && std::basic_string<C>(rbegin(k), rend(k)) == r
						 && std::basic_string<C>(crbegin(k), crend(k)) == r,
					 "reverse iteration");
			fixed_string<C, L> t(C('q'));
			t = s;
			same(t, m, "assignment");
			if constexpr (L > 0)
			{
				t[L - 1] = C('!');
				same(s, m, "value semantics");
				auto mm	  = m;
				mm.back() = C('!');
				same(t, mm, "mutation");
				t.front() = C('?');
				*t.rbegin() = C(';');
				mm.front() = C('?');
				mm.back()  = C(';');
				same(t, mm, "mutation through front and iterators");
			}
			if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
			{
				if (std::is_same_v<C, char> || m.find(C(-1)) == m.npos) // WEOF is not a character
				{
					std::basic_ostringstream<C> o;
					o << s;
					VF_CHECK(o.str() == m, "stream output");
				}
			}
		}
	}

	// ------------------------------------------------------------------------------------------------ constructors
	template <typename C, size_t L, size_t N>
	void ctors()
	{
		vf::at(type_of<C>, L, N);
		vf::state();
		C arr[N + 1]{};
		for (size_t i = 0; i < N; i++)
			arr[i] = C('a' + i);
		const std::basic_string<C> m(arr, N);
		auto fit = m.substr(0, L);
		fit.resize(L, C(0));
		const C(&carr)[N + 1] = arr;
		same(fixed_string<C, L>{ carr }, fit, "from array");
		same(fixed_string<C, L>{ arr, index_tag<N>{} }, fit, "from pointer and length");
		fixed_string<C, N> other(C('.'));
		for (size_t i = 0; i < N; i++)
			other[i] = arr[i];
		same(fixed_string<C, L>{ other }, fit, "from fixed_string");
		same(fixed_string<C, L>(C('x')), std::basic_string<C>(L, C('x')), "fill");
		if constexpr (N > 0)
		{
			// no terminator within the array at all
			C raw[N];
			for (size_t i = 0; i < N; i++)
				raw[i] = C('a' + i);
			const C(&craw)[N] = raw;
			same(fixed_string<C, L>{ craw }, fit, "from unterminated array");
		}
		if constexpr (std::is_same_v<C, char>)
			same(fixed_string<C, L>{ std::string_view{ arr, N } }, fit, "from string_view");
	}

	template <typename C, size_t L, size_t... N>
	void ctors_n(std::index_sequence<N...>)
	{
		(ctors<C, L, N>(), ...);
	}
	template <typename C, size_t... L>
	void ctors_l(std::index_sequence<L...> n)
	{
		(ctors_n<C, L>(n), ...);
	}

	// ------------------------------------------------------------------------------------------------ substrings
	template <typename C>
	std::basic_string<C> py_slice(const std::basic_string<C>& m, long long a, long long b)
	{
		const long long n = (long long)m.size();
		auto norm		  = [&](long long i)
		{
			if (i < 0)
				i = i < -n ? 0 : i + n;
			return i > n ? n : i;
		};
		a = norm(a), b = norm(b);
		return b <= a ? std::basic_string<C>{} : m.substr((size_t)a, (size_t)(b - a));
	}
	template <typename C, size_t L, auto S, auto E>
	void slice1(const fixed_string<C, L>& s, const std::basic_string<C>& m)
	{
		vf::at(type_of<C>, L, (int64_t)S, (int64_t)E, 0, sizeof(S));
		same(s.template slice<S, E>(), py_slice(m, (long long)S, (long long)E), "slice");
		if constexpr (E >= 0)
		{
			vf::at(type_of<C>, L, (int64_t)S, (int64_t)E, 1, sizeof(S));
			const auto tail = py_slice(m, (long long)S, (long long)m.size());
			same(s.template substr<S, (size_t)E>(), tail.substr(0, (size_t)E), "substr");
		}
		vf::state();
	}
	template <typename C, size_t L, auto S, typename T, T... E>
	void slice2(const fixed_string<C, L>& s, const std::basic_string<C>& m, std::integer_sequence<T, E...>)
	{
		(slice1<C, L, S, (T)(E - 6)>(s, m), ...);
		vf::at(type_of<C>, L, (int64_t)S, -99);
		const auto tail = py_slice(m, (long long)S, (long long)m.size());
		same(s.template substr<S>(), tail, "substr to end");
		same(s.template slice<S>(), tail, "slice to end");
		same(s.template slice<S, std::numeric_limits<T>::max()>(), tail, "slice to a huge end");
		same(s.template slice<S, std::numeric_limits<T>::min()>(), std::basic_string<C>{}, "slice to the lowest end");
		same(s.template slice<std::numeric_limits<T>::min(), S>(), py_slice(m, 0, (long long)S), "slice from the lowest start");
		same(s.template slice<std::numeric_limits<T>::max(), S>(), std::basic_string<C>{}, "slice from a huge start");
	}
	template <typename C, size_t L, typename T, T... S>
	void slices(std::integer_sequence<T, S...> all)
	{
		fixed_string<C, L> s(C(0));
		std::basic_string<C> m;
		for (size_t i = 0; i < L; i++)
			m += s[i] = C('a' + i);
		(slice2<C, L, (T)(S - 6)>(s, m, all), ...);
	}
	template <typename C, size_t L>
	void slices_of()
	{
		slices<C, L, int>(std::make_integer_sequence<int, 13>{});
		if constexpr (std::is_same_v<C, char> && L == 5)
		{
			slices<C, L, signed char>(std::make_integer_sequence<signed char, 13>{});
			slices<C, L, long long>(std::make_integer_sequence<long long, 13>{});
		}
		// unsigned indices
		fixed_string<C, L> s(C(0));
		std::basic_string<C> m;
		for (size_t i = 0; i < L; i++)
			m += s[i] = C('a' + i);
		vf::at(type_of<C>, L, -1000);
		same(s.template slice<1u, 3u>(), py_slice(m, 1, 3), "unsigned slice");
		same(s.template slice<0_sz, 2_sz>(), py_slice(m, 0, 2), "size_t slice");
		same(s.template slice<2_sz, (size_t)-1>(), py_slice(m, 2, 99), "size_t slice to the end");
		same(s.template substr<1u, (size_t)-1>(), py_slice(m, 1, 99), "size_t substr of maximal length");
		same(s.template substr<(size_t)-1, (size_t)-1>(), {}, "substr past the end");
		same(s.template substr<(size_t)-2, 3>(), {}, "substr far past the end");
	}
	// long strings and narrow index types
	template <size_t L>
	void long_slices()
	{
		fixed_string<char, L> s('\0');
		std::string m;
		for (size_t i = 0; i < L; i++)
			m += s[i] = char('!' + i % 90);
		vf::at(0, L);
		vf::state();
		same(s.template substr<(signed char)-127>(), py_slice(m, -127, (long long)L), "int8 start -127");
		same(s.template substr<(signed char)-128>(), py_slice(m, -128, (long long)L), "int8 start -128");
		same(s.template slice<(signed char)-128, (signed char)-1>(), py_slice(m, -128, -1), "int8 slice -128..-1");
		same(s.template slice<(signed char)0, (signed char)-128>(), py_slice(m, 0, -128), "int8 slice 0..-128");
		same(s.template slice<(signed char)0, (signed char)127>(), py_slice(m, 0, 127), "int8 slice 0..127");
		same(s.template slice<(unsigned char)100, (unsigned char)255>(), py_slice(m, 100, 255), "uint8 slice 100..255");
		same(s.template slice<-32768, (short)-32768>(), {}, "int16 lowest slice");
		same(s.template substr<(short)-32768>(), m, "int16 lowest start");
	}

	template <typename C>
	void all_of_type()
	{
		if (vf::group("unary"))
		{
			unary<C, 0>();
			unary<C, 1>();
			unary<C, 2>();
			unary<C, 3>();
			unary<C, 4>();
			vf::sample("all strings up to length 4 over {'a','b',NUL,0xFF..} in 5 character types: accessors, iterators, "
					   "mutation, concatenation with characters, streams");
		}
		if (vf::group("pairs"))
		{
			pairs<C, 0, 0>(), pairs<C, 0, 1>(), pairs<C, 0, 2>(), pairs<C, 0, 3>();
			pairs<C, 1, 0>(), pairs<C, 1, 1>(), pairs<C, 1, 2>(), pairs<C, 1, 3>();
			pairs<C, 2, 0>(), pairs<C, 2, 1>(), pairs<C, 2, 2>(), pairs<C, 2, 3>();
			pairs<C, 3, 0>(), pairs<C, 3, 1>(), pairs<C, 3, 2>(), pairs<C, 3, 3>();
			vf::sample("all ordered pairs of strings up to length 3: compare, six relations, <=>, concatenation");
			static_assert(static_pairs<C, 2, 2>() == 0 && static_pairs<C, 1, 2>() == 0 && static_pairs<C, 2, 1>() == 0
						  && static_pairs<C, 0, 2>() == 0 && static_pairs<C, 0, 0>() == 0);
		}
		if (vf::group("construct"))
		{
			ctors_l<C>(std::make_index_sequence<6>{});
			vf::sample("every constructor for capacities 0..5 x source lengths 0..5");
		}
		if (vf::group("substrings"))
		{
			slices_of<C, 0>();
			slices_of<C, 2>();
			slices_of<C, 5>();
			if constexpr (std::is_same_v<C, char>)
			{
				slices_of<C, 1>();
				slices_of<C, 4>();
			}
			vf::sample("slice and substr for lengths 0..5 and all start/end indices in -6..6 plus type extremes");
		}
	}
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	all_of_type<CHAR_TYPE>();
	if (std::is_same_v<CHAR_TYPE, char>)
	{
		if (vf::group("long_strings"))
		{
			long_slices<127>();
			long_slices<128>();
			long_slices<129>();
			long_slices<200>();
			long_slices<300>();
			vf::sample("strings longer than the index type's range");
		}
		if (vf::group("literals"))
		{
			vf::at(0);
			same(fixed_string{ "abc" }, std::string{ "abc" }, "deduced from a literal");
			same(fixed_string{ "" }, std::string{}, "deduced from an empty literal");
			same(fixed_string{ 'x' }, std::string{ "x" }, "deduced from a character");
			same(fixed_string{ u"ab" }, std::u16string{ u"ab" }, "deduced from a UTF-16 literal");
			same(fixed_string{ L"ab\0c" }, std::wstring{ L"ab\0c", 4 }, "deduced from a literal with NUL");
#if MUU_HAS_FIXED_STRING_LITERALS
			same("hello"_fs, std::string{ "hello" }, "_fs literal");
			same(""_fs, std::string{}, "empty _fs literal");
			same(U"a\U0010FFFF"_fs, std::u32string{ U"a\U0010FFFF" }, "UTF-32 _fs literal");
#endif
			std::wostringstream w;
			w << fixed_string{ "abc" };
			VF_CHECK(w.str() == L"abc", "narrow text on a wide stream");
			vf::sample("literals and deduction");
		}
	}
	return vf::finish();
}
