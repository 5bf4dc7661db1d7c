// D17: the compile-time loops, iterator access, literals and small language helpers of core.h.
#include "muu/core.h"
#include "muu/iterators.h"
#include "muu/source_location.h"
#include "vf.h"
#include <array>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef GRP
	#define GRP -1
#endif

// ---- for_sequence, for_product ---------------------------------------------------------------------------------------
struct boom
{};
template <typename T, long long ThrowAt>
struct seq_probe
{
	std::vector<long long>* log;
	std::vector<int>* how; // 0 &, 1 const&, 2 &&

	template <typename I>
	void step(int cat)
	{
		using type = typename I::value_type;
		static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
		static_assert(std::is_same_v<type, T>);
		if (static_cast<long long>(I::value) == ThrowAt)
			throw boom{};
		log->push_back(static_cast<long long>(I::value));
		how->push_back(cat);
	}
	template <typename I>
	int operator()(I) & noexcept(static_cast<long long>(I::value) != ThrowAt)
	{
		step<I>(0);
		return 7;
	}
	template <typename I>
	int operator()(I) const& noexcept(static_cast<long long>(I::value) != ThrowAt)
	{
		const_cast<seq_probe*>(this)->template step<I>(1);
		return 8;
	}
	template <typename I>
	int operator()(I) && noexcept(static_cast<long long>(I::value) != ThrowAt)
	{
		step<I>(2);
		return 9;
	}
};

template <auto N, long long ThrowAt>
static void sequence(int ti)
{
	using T = decltype(N);
	std::vector<long long> log;
	std::vector<int> how;
	using P = seq_probe<T, ThrowAt>;
	P p{ &log, &how };
	const P cp{ &log, &how };
	constexpr long long n	  = static_cast<long long>(N);
	constexpr bool throws	  = ThrowAt >= 0 && ThrowAt < n;
	constexpr long long calls = throws ? ThrowAt : n;
	for (int cat = 0; cat < 3; cat++)
	{
		vf::at(ti, n, ThrowAt, cat);
		vf::state();
		log.clear();
		how.clear();
		bool threw = false;
		// (an unjustified noexcept would end the process here, which is reported as a crash of this case)
		try
		{
			if (cat == 0)
				muu::for_sequence<N>(p);
			else if (cat == 1)
				muu::for_sequence<N>(cp);
			else
				muu::for_sequence<N>(P{ &log, &how });
		}
		catch (boom&)
		{
			threw = true;
		}
		vf::trans(static_cast<uint64_t>(calls) + 1);
		VF_CHECK(threw == throws, "for_sequence of %lld calls, throwing at %lld: threw=%d", n, ThrowAt, threw);
		VF_CHECK(log.size() == static_cast<size_t>(calls), "for_sequence made %zu calls, not %lld", log.size(), calls);
		for (size_t i = 0; i < log.size(); i++)
		{
			VF_CHECK(log[i] == static_cast<long long>(i), "call %zu of for_sequence got %lld", i, log[i]);
			VF_CHECK(how[i] == cat, "call %zu of for_sequence used overload %d, not %d", i, how[i], cat);
		}
	}
	VF_CHECK((noexcept(muu::for_sequence<N>(p)) == !throws), "for_sequence noexcept(lvalue) is wrong");
	VF_CHECK((noexcept(muu::for_sequence<N>(cp)) == !throws), "for_sequence noexcept(const lvalue) is wrong");
	VF_CHECK((noexcept(muu::for_sequence<N>(P{ nullptr, nullptr })) == !throws), "for_sequence noexcept(rvalue) is wrong");
	static_assert(std::is_void_v<decltype(muu::for_sequence<N>(p))>);
}
template <auto N>
constexpr bool sequence_constexpr()
{
	long long sum = 0, count = 0;
	muu::for_sequence<N>(
		[&](auto i)
		{
			sum = sum * 3 + static_cast<long long>(decltype(i)::value);
			count++;
			sum %= 1000003;
		});
	long long want = 0;
	for (long long i = 0; i < static_cast<long long>(N); i++)
		want = (want * 3 + i) % 1000003;
	return sum == want && count == static_cast<long long>(N);
}
template <typename T, size_t... I>
static void sequences(int ti, std::index_sequence<I...>)
{
	(sequence<static_cast<T>(I), -1>(ti), ...);
	(sequence<static_cast<T>(I), 0>(ti), ...);
	(sequence<static_cast<T>(I), 1>(ti), ...);
	(sequence<static_cast<T>(I), 3>(ti), ...);
	(sequence<static_cast<T>(I), static_cast<long long>(I) - 1>(ti), ...);
	(sequence<static_cast<T>(I), static_cast<long long>(I)>(ti), ...);
	static_assert((sequence_constexpr<static_cast<T>(I)>() && ...));
}

template <typename T, typename U, long long ThrowI, long long ThrowJ>
struct prod_probe
{
	std::vector<std::pair<long long, long long>>* log;
	std::vector<int>* how;
	template <typename I, typename J>
	void step(int cat)
	{
		static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
		static_assert(std::is_same_v<J, std::integral_constant<U, J::value>>);
		if (static_cast<long long>(I::value) == ThrowI && static_cast<long long>(J::value) == ThrowJ)
			throw boom{};
		log->push_back({ static_cast<long long>(I::value), static_cast<long long>(J::value) });
		how->push_back(cat);
	}
	template <typename I, typename J>
	static constexpr bool quiet = !(static_cast<long long>(I::value) == ThrowI && static_cast<long long>(J::value) == ThrowJ);
	template <typename I, typename J>
	int operator()(I, J) & noexcept(quiet<I, J>)
	{
		step<I, J>(0);
		return 1;
	}
	template <typename I, typename J>
	int operator()(I, J) const& noexcept(quiet<I, J>)
	{
		const_cast<prod_probe*>(this)->template step<I, J>(1);
		return 1;
	}
	template <typename I, typename J>
	int operator()(I, J) && noexcept(quiet<I, J>)
	{
		step<I, J>(2);
		return 1;
	}
};
template <auto A, auto B, long long ThrowI, long long ThrowJ>
static void product(int ti)
{
	using P				   = prod_probe<decltype(A), decltype(B), ThrowI, ThrowJ>;
	constexpr long long na = static_cast<long long>(A), nb = static_cast<long long>(B);
	constexpr bool throws	  = ThrowI >= 0 && ThrowI < na && ThrowJ >= 0 && ThrowJ < nb;
	constexpr long long calls = throws ? ThrowI * nb + ThrowJ : na * nb;
	std::vector<std::pair<long long, long long>> log;
	std::vector<int> how;
	P p{ &log, &how };
	const P cp{ &log, &how };
	for (int cat = 0; cat < 3; cat++)
	{
		vf::at(ti, na, nb, ThrowI, ThrowJ, cat);
		vf::state();
		log.clear();
		how.clear();
		bool threw = false;
		try
		{
			if (cat == 0)
				muu::for_product<A, B>(p);
			else if (cat == 1)
				muu::for_product<A, B>(cp);
			else
				muu::for_product<A, B>(P{ &log, &how });
		}
		catch (boom&)
		{
			threw = true;
		}
		vf::trans(static_cast<uint64_t>(calls) + 1);
		VF_CHECK(threw == throws, "for_product: threw=%d", threw);
		VF_CHECK(log.size() == static_cast<size_t>(calls), "for_product made %zu calls, not %lld", log.size(), calls);
		for (size_t i = 0; i < log.size(); i++)
		{
			VF_CHECK(log[i].first == static_cast<long long>(i) / nb && log[i].second == static_cast<long long>(i) % nb,
					 "call %zu of for_product got (%lld, %lld)", i, log[i].first, log[i].second);
			VF_CHECK(how[i] == cat, "call %zu of for_product used overload %d, not %d", i, how[i], cat);
		}
	}
	VF_CHECK((noexcept(muu::for_product<A, B>(p)) == !throws), "for_product noexcept(lvalue) is wrong");
	VF_CHECK((noexcept(muu::for_product<A, B>(cp)) == !throws), "for_product noexcept(const lvalue) is wrong");
	VF_CHECK((noexcept(muu::for_product<A, B>(P{ nullptr, nullptr })) == !throws), "for_product noexcept(rvalue) is wrong");
}
template <auto A, auto B>
constexpr bool product_constexpr()
{
	long long h = 0;
	muu::for_product<A, B>([&](auto i, auto j)
						   { h = (h * 7 + static_cast<long long>(decltype(i)::value) * 31 + static_cast<long long>(decltype(j)::value) + 1) % 1000003; });
	long long want = 0;
	for (long long i = 0; i < static_cast<long long>(A); i++)
		for (long long j = 0; j < static_cast<long long>(B); j++)
			want = (want * 7 + i * 31 + j + 1) % 1000003;
	return h == want;
}
template <typename T, typename U, size_t A, size_t B>
static void products1(int ti)
{
	constexpr T a = static_cast<T>(A);
	constexpr U b = static_cast<U>(B);
	product<a, b, -1, -1>(ti);
	product<a, b, 0, 0>(ti);
	product<a, b, static_cast<long long>(A) - 1, static_cast<long long>(B) - 1>(ti);
	product<a, b, static_cast<long long>(A) - 1, 0>(ti);
	product<a, b, 0, static_cast<long long>(B) - 1>(ti);
	product<a, b, static_cast<long long>(A), 0>(ti);
	product<a, b, 0, static_cast<long long>(B)>(ti);
	product<a, b, 1, 2>(ti);
	static_assert(product_constexpr<a, b>());
}
template <typename T, typename U, size_t W, size_t... I>
static void products(int ti, std::index_sequence<I...>)
{
	(products1<T, U, I / W, I % W>(ti), ...);
}

// ---- iterators -------------------------------------------------------------------------------------------------------
template <typename T, size_t N>
static void arrays(int ti)
{
	vf::at(ti, N);
	vf::state();
	T arr[N]{};
	const T carr[N]{};
	volatile T varr[N]{};
	T(&ref)[N] = arr;
#define ARRAY_CASE(x, E)                                                                                               \
	VF_CHECK((std::is_same_v<decltype(muu::begin_iterator(x)), E*>), "begin_iterator(" #x ") is of the wrong type");   \
	VF_CHECK((std::is_same_v<decltype(muu::end_iterator(x)), E*>), "end_iterator(" #x ") is of the wrong type");       \
	VF_CHECK(muu::begin_iterator(x) == &x[0], "begin_iterator(" #x ") is not its first element");                      \
	VF_CHECK(muu::end_iterator(x) == &x[0] + N, "end_iterator(" #x ") is off by %td",                                  \
			 muu::end_iterator(x) - (&x[0] + N));                                                                      \
	vf::trans(4)
	ARRAY_CASE(arr, T);
	ARRAY_CASE(carr, const T);
	ARRAY_CASE(varr, volatile T);
	ARRAY_CASE(ref, T);
	VF_CHECK(muu::begin_iterator(std::move(arr)) == arr, "begin_iterator of an rvalue array");
	VF_CHECK(muu::end_iterator(std::move(arr)) == arr + N, "end_iterator of an rvalue array");
	T two[N][3]{};
	VF_CHECK(muu::begin_iterator(two) == two && muu::end_iterator(two) == two + N, "2d array");
	VF_CHECK((std::is_same_v<decltype(muu::begin_iterator(two)), T(*)[3]>), "2d array iterator type");
	for (size_t i = 0; i <= N; i++)
		for (size_t j = 0; j <= N; j++)
		{
			const auto d = muu::iterator_distance(arr + i, carr + j - carr + arr);
			VF_CHECK(d == static_cast<ptrdiff_t>(j) - static_cast<ptrdiff_t>(i), "iterator_distance(%zu, %zu) = %td", i, j, d);
			vf::trans();
		}
}
template <typename T, size_t... I>
static void arrays_all(int ti, std::index_sequence<I...>)
{
	(arrays<T, I + 1>(ti), ...);
}

namespace user
{
	// member functions for each kind of object, told apart by where they point
	struct members
	{
		mutable int store[8]{};
		int* begin() &
		{
			return store;
		}
		int* end() &
		{
			return store + 1;
		}
		const int* begin() const&
		{
			return store + 1;
		}
		const int* end() const&
		{
			return store + 3;
		}
		int* begin() &&
		{
			return store + 4;
		}
		int* end() &&
		{
			return store + 8;
		}
	};
	// members are preferred over free functions
	struct both
	{
		int store[8]{};
		int* begin()
		{
			return store;
		}
		int* end()
		{
			return store + 5;
		}
	};
	inline int* begin(both& b)
	{
		return b.store + 6;
	}
	inline int* end(both& b)
	{
		return b.store + 7;
	}
	// found only by argument-dependent lookup
	struct adl
	{
		mutable int store[8]{};
	};
	inline int* begin(adl& b)
	{
		return b.store;
	}
	inline int* end(adl& b)
	{
		return b.store + 2;
	}
	inline const int* begin(const adl& b)
	{
		return b.store + 2;
	}
	inline const int* end(const adl& b)
	{
		return b.store + 6;
	}
	// one member, one free: the pair of free functions is the only complete one
	struct half_member
	{
		int store[8]{};
		int* begin()
		{
			return store;
		}
	};
	inline int* begin(half_member& b)
	{
		return b.store + 1;
	}
	inline int* end(half_member& b)
	{
		return b.store + 4;
	}

	// an iterator with subtraction and nothing more than a forward iterator besides
	struct counting
	{
		using iterator_category = std::forward_iterator_tag;
		using value_type		= int;
		using difference_type	= long;
		using pointer			= const int*;
		using reference			= const int&;
		int v{};
		static inline int steps = 0;
		const int& operator*() const
		{
			return v;
		}
		counting& operator++()
		{
			v++;
			steps++;
			return *this;
		}
		counting operator++(int)
		{
			auto c = *this;
			++*this;
			return c;
		}
		friend bool operator==(counting a, counting b)
		{
			return a.v == b.v;
		}
		friend bool operator!=(counting a, counting b)
		{
			return a.v != b.v;
		}
	};
	template <typename R>
	struct subtracting : counting
	{
		subtracting& operator++()
		{
			v++;
			steps++;
			return *this;
		}
		friend R operator-(subtracting a, subtracting b)
		{
			return static_cast<R>(a.v - b.v);
		}
	};
	struct sentinel
	{
		int last{};
	};
	inline long operator-(sentinel s, counting c)
	{
		return s.last - c.v;
	}
	enum class steps_t : long
	{
	};
}

template <typename C>
static void container(int ti, C (*make)(int))
{
	for (int n = 0; n <= 6; n++)
	{
		vf::at(ti, n);
		vf::state();
		C c		   = make(n);
		const C cc = c;
		VF_CHECK(muu::begin_iterator(c) == c.begin() && muu::end_iterator(c) == c.end(), "container");
		VF_CHECK(muu::begin_iterator(cc) == cc.begin() && muu::end_iterator(cc) == cc.end(), "const container");
		VF_CHECK((std::is_same_v<decltype(muu::begin_iterator(c)), typename C::iterator>), "iterator type");
		VF_CHECK((std::is_same_v<decltype(muu::begin_iterator(cc)), typename C::const_iterator>), "const iterator type");
		VF_CHECK((std::is_same_v<decltype(muu::end_iterator(c)), typename C::iterator>), "end iterator type");
		auto it = c.begin();
		for (int i = 0; i <= n; i++, (i <= n ? (void)++it : (void)0))
		{
			auto jt = it;
			for (int j = i; j <= n; j++, (j <= n ? (void)++jt : (void)0))
			{
				VF_CHECK((muu::iterator_distance(it, jt) == j - i), "iterator_distance(%d, %d) is %lld", i, j,
						 (long long)muu::iterator_distance(it, jt));
				vf::trans();
			}
		}
	}
}

// ---- literals --------------------------------------------------------------------------------------------------------
static constexpr unsigned long long ull_values[] = {
	0,			1,			2,			3,			10,			42,			100,		126,		  127,		   128,
	254,		255,		256,		1000,		32766,		32767,		32768,		65534,		  65535,	   65536,
	2147483646, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 1ull << 52, 9223372036854775806ull,
	9223372036854775807ull, 9223372036854775808ull, 18446744073709551614ull, 18446744073709551615ull,
	(1ull << 54) - 1, (1ull << 44) - 1, (1ull << 34) - 1, 1ull << 53, 1ull << 43, 1ull << 33, 12345678901ull
};
template <size_t I>
static void literal()
{
	constexpr auto v = ull_values[I];
	vf::at(I);
	vf::state();
	namespace lit = muu::literals;
#define LIT(suffix, T, max, factor)                                                                                    \
	if constexpr (v <= static_cast<unsigned long long>(max) / (factor))                                                \
	{                                                                                                                  \
		constexpr auto got = lit::operator""_##suffix(v);                                                              \
		static_assert(std::is_same_v<decltype(lit::operator""_##suffix(v)), T>);                                       \
		VF_CHECK(got == static_cast<T>(v * (factor)), "%llu_" #suffix " is wrong", v);                                 \
		vf::trans();                                                                                                   \
	}
	LIT(u8, uint8_t, UINT8_MAX, 1ull)
	LIT(u16, uint16_t, UINT16_MAX, 1ull)
	LIT(u32, uint32_t, UINT32_MAX, 1ull)
	LIT(u64, uint64_t, UINT64_MAX, 1ull)
	LIT(i8, int8_t, INT8_MAX, 1ull)
	LIT(i16, int16_t, INT16_MAX, 1ull)
	LIT(i32, int32_t, INT32_MAX, 1ull)
	LIT(i64, int64_t, INT64_MAX, 1ull)
	LIT(sz, size_t, SIZE_MAX, 1ull)
	LIT(b, size_t, SIZE_MAX, 1ull)
	LIT(kb, size_t, SIZE_MAX, 1ull << 10)
	LIT(mb, size_t, SIZE_MAX, 1ull << 20)
	LIT(gb, size_t, SIZE_MAX, 1ull << 30)
}
template <size_t... I>
static void literal_all(std::index_sequence<I...>)
{
	(literal<I>(), ...);
}

// ---- bit_cast, launder, assume_aligned -------------------------------------------------------------------------------
struct s2
{
	uint8_t a, b;
};
struct s4
{
	uint16_t a;
	int16_t b;
};
struct s8
{
	s4 a;
	float f;
};
enum class e1 : int8_t
{
};
enum class e4 : uint32_t
{
};
struct no_default
{
	uint32_t v;
	no_default()					  = delete;
	no_default(const no_default&)	  = default;
};
template <typename A, typename B, typename Raw>
static void cast_pair(Raw raw)
{
	static_assert(sizeof(A) == sizeof(Raw) && sizeof(B) == sizeof(Raw));
	alignas(A) unsigned char mem[sizeof(A)];
	memcpy(mem, &raw, sizeof(A));
	A& a  = *reinterpret_cast<A*>(mem);
	auto b = muu::bit_cast<B>(a);
	static_assert(std::is_same_v<decltype(b), B> && noexcept(muu::bit_cast<B>(a)));
	Raw out;
	memcpy(&out, &b, sizeof(Raw));
	VF_CHECK(out == raw, "bit_cast changed %llx to %llx", (unsigned long long)raw, (unsigned long long)out);
	auto c = muu::bit_cast<A>(b);
	memcpy(&out, &c, sizeof(Raw));
	VF_CHECK(out == raw, "bit_cast back changed %llx to %llx", (unsigned long long)raw, (unsigned long long)out);
	vf::trans(2);
}
template <typename Raw, typename A, typename... B>
static void cast_from(Raw raw)
{
	(cast_pair<A, B>(raw), ...);
}
template <typename Raw, typename... T>
static void cast_all(Raw raw)
{
	vf::at(sizeof(Raw), raw);
	vf::state();
	(cast_from<Raw, T, T...>(raw), ...);
}

template <size_t N>
static void aligned(unsigned char* base)
{
	for (size_t off = 0; off < 4096; off += N)
	{
		vf::at(N, off);
		vf::state();
		unsigned char* p = base + off;
		VF_CHECK(muu::assume_aligned<N>(p) == p, "assume_aligned moved the pointer");
		VF_CHECK(muu::assume_aligned<N>(static_cast<const unsigned char*>(p)) == p, "assume_aligned moved a const pointer");
		VF_CHECK(muu::assume_aligned<N>(static_cast<volatile unsigned char*>(p)) == p, "assume_aligned moved a volatile pointer");
		VF_CHECK(muu::assume_aligned<N>(static_cast<void*>(p)) == p, "assume_aligned moved a void pointer");
		VF_CHECK(muu::assume_aligned<N>(static_cast<const volatile void*>(p)) == p, "assume_aligned moved a cv void pointer");
		static_assert(std::is_same_v<decltype(muu::assume_aligned<N>(static_cast<const volatile int*>(nullptr))), const volatile int*>);
		*p = static_cast<unsigned char>(off / N);
		VF_CHECK(*muu::launder(p) == static_cast<unsigned char>(off / N), "launder");
		VF_CHECK(muu::launder(static_cast<const unsigned char*>(p)) == p, "launder const");
		vf::trans(7);
	}
}
static constexpr int aligned_constexpr_target = 3;
static_assert(*muu::assume_aligned<4>(&aligned_constexpr_target) == 3);
static_assert(*muu::launder(&aligned_constexpr_target) == 3);
static_assert(muu::is_constant_evaluated());

// ---- source_location -------------------------------------------------------------------------------------------------
constexpr char path_alphabet[] = { 'a', '/', '\\', '.' };
template <size_t I>
struct path_of
{
	// word number I over the alphabet, shortest first
	static constexpr auto make()
	{
		std::array<char, 8> s{};
		size_t len = 0, count = 1, rest = I;
		while (rest >= count)
		{
			rest -= count;
			count *= 4;
			len++;
		}
		for (size_t i = len; i-- > 0;)
		{
			s[i] = path_alphabet[rest % 4];
			rest /= 4;
		}
		return s;
	}
	static constexpr std::array<char, 8> text = make();
};
#ifndef __clang__ // (clang 18 cannot name the consteval function with template-dependent arguments)
template <size_t I>
static void path()
{
	static constexpr auto& text = path_of<I>::text;
	constexpr auto loc			= muu::source_location::current(I, 3, text.data(), "fn");
	std::string s				= text.data();
	vf::at(I);
	vf::ctx.text = text.data();
	vf::state();
	auto cut = s.find_last_of("/\\");
	std::string want = cut == std::string::npos ? s : s.substr(cut + 1);
	VF_CHECK(loc.file_name_tail() == want, "the tail of '%s' is '%s'", s.c_str(), loc.file_name_tail());
	VF_CHECK(loc.file_name() == s && loc.line() == I && loc.column() == 3 && std::string(loc.function_name()) == "fn", "source_location fields");
	vf::trans(5);
	vf::ctx.text = nullptr;
}
template <size_t... I>
static void path_all(std::index_sequence<I...>)
{
	(path<I>(), ...);
}
#endif
struct located
{
	muu::source_location where;
	int line;
};
static located here(int line, muu::source_location where = muu::source_location::current())
{
	return { where, line };
}

// ---- flags -----------------------------------------------------------------------------------------------------------
namespace user
{
	enum class f8 : uint8_t
	{
	};
	MUU_MAKE_FLAGS(f8);
	enum class fi8 : int8_t
	{
	};
	MUU_MAKE_FLAGS(fi8);
	enum class f32 : unsigned
	{
	};
	MUU_MAKE_FLAGS(f32);
	struct nest
	{
		enum class f16 : uint16_t
		{
		};
	};
	MUU_MAKE_FLAGS(nest::f16);
}
template <typename F, typename U = std::underlying_type_t<F>>
static void flags(int ti, const std::vector<U>& values)
{
	for (U a : values)
		for (U b : values)
		{
			vf::at(ti, a, b);
			vf::state();
			const F x = static_cast<F>(a), y = static_cast<F>(b);
			auto raw = [](F f) { return static_cast<U>(f); };
			VF_CHECK(raw(x & y) == static_cast<U>(a & b), "&");
			VF_CHECK(raw(x | y) == static_cast<U>(a | b), "|");
			VF_CHECK(raw(x ^ y) == static_cast<U>(a ^ b), "^");
			VF_CHECK(raw(~x) == static_cast<U>(~a), "~");
			VF_CHECK((!x) == (a == 0), "!");
			F z = x;
			VF_CHECK(&(z &= y) == &z && raw(z) == static_cast<U>(a & b), "&=");
			z = x;
			VF_CHECK(&(z |= y) == &z && raw(z) == static_cast<U>(a | b), "|=");
			z = x;
			VF_CHECK(&(z ^= y) == &z && raw(z) == static_cast<U>(a ^ b), "^=");
			VF_CHECK(muu::unwrap(x) == a, "unwrap");
			static_assert(std::is_same_v<decltype(muu::unwrap(x)), U> && noexcept(x & y) && noexcept(z |= y) && noexcept(!x));
			vf::trans(9);
		}
}

// ---- special members -------------------------------------------------------------------------------------------------
struct only_move
{
	only_move() = default;
	MUU_DELETE_COPY(only_move);
	MUU_DEFAULT_MOVE(only_move);
};
struct only_copy
{
	only_copy() = default;
	MUU_DEFAULT_COPY(only_copy);
};
struct neither
{
	neither() = default;
	MUU_DELETE_COPY(neither);
	MUU_DELETE_MOVE(neither);
};
struct everything
{
	everything() = default;
	MUU_DEFAULT_COPY(everything);
	MUU_DEFAULT_MOVE(everything);
};
template <typename T>
static void members(int i, bool copy, bool move)
{
	vf::at(i);
	vf::state();
	VF_CHECK(std::is_copy_constructible_v<T> == copy, "copy-constructible is wrong");
	VF_CHECK(std::is_copy_assignable_v<T> == copy, "copy-assignable is wrong");
	VF_CHECK(std::is_move_constructible_v<T> == move, "move-constructible is wrong");
	VF_CHECK(std::is_move_assignable_v<T> == move, "move-assignable is wrong");
	vf::trans(4);
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	constexpr size_t deep =
#ifdef DEEP
		1;
#else
		0;
#endif
#if GRP == 0 || GRP < 0
	if (vf::group("for_sequence"))
	{
		using S = std::make_index_sequence<deep ? 65 : 13>;
		sequences<int>(0, S{});
		sequences<size_t>(1, S{});
		sequences<unsigned char>(2, S{});
		sequences<short>(3, S{});
		sequences<long long>(4, S{});
		sequences<char>(5, S{});
		sequences<unsigned>(6, S{});
		static_assert(sequence_constexpr<200>() && sequence_constexpr<100u>());
		sequence<100, 99>(7);
		sequence<200u, 198>(8);
		sequence<uint8_t{ 255 }, -1>(9);
	}
#endif
#if GRP == 1 || GRP < 0
	if (vf::group("for_product"))
	{
		constexpr size_t w = deep ? 9 : 5;
		using S			   = std::make_index_sequence<w * w>;
		products<int, int, w>(0, S{});
		products<size_t, unsigned char, w>(1, S{});
		products<short, long long, w>(2, S{});
	}
#endif
#if GRP == 2 || GRP < 0
	if (vf::group("arrays"))
	{
		using S = std::make_index_sequence<12>;
		arrays_all<char>(0, S{});
		arrays_all<int>(1, S{});
		arrays_all<double>(2, S{});
		arrays_all<user::both>(3, S{});
		arrays_all<int*>(4, S{});
		arrays_all<s2>(5, S{});
	}
	if (vf::group("ranges"))
	{
		vf::at(0);
		vf::state();
		user::members m;
		const user::members cm;
		VF_CHECK(muu::begin_iterator(m) == m.store && muu::end_iterator(m) == m.store + 1, "members of an lvalue");
		VF_CHECK(muu::begin_iterator(cm) == cm.store + 1 && muu::end_iterator(cm) == cm.store + 3, "members of a const lvalue");
		VF_CHECK(muu::begin_iterator(std::move(m)) == m.store + 4 && muu::end_iterator(std::move(m)) == m.store + 8, "members of an rvalue");
		VF_CHECK(muu::begin_iterator(std::move(cm)) == cm.store + 1, "members of a const rvalue");
		vf::at(1);
		user::both b;
		VF_CHECK(muu::begin_iterator(b) == b.store && muu::end_iterator(b) == b.store + 5, "members come before free functions");
		vf::at(2);
		user::adl a;
		const user::adl ca;
		VF_CHECK(muu::begin_iterator(a) == a.store && muu::end_iterator(a) == a.store + 2, "adl on an lvalue");
		VF_CHECK(muu::begin_iterator(ca) == ca.store + 2 && muu::end_iterator(ca) == ca.store + 6, "adl on a const lvalue");
		VF_CHECK((std::is_same_v<decltype(muu::begin_iterator(ca)), const int*>), "adl on a const lvalue: type");
		vf::at(3);
		user::half_member h;
		VF_CHECK(muu::begin_iterator(h) == h.store + 1 && muu::end_iterator(h) == h.store + 4, "half a member pair");
		vf::trans(16);
		container<std::vector<int>>(10, [](int n) { return std::vector<int>(size_t(n), 3); });
		container<std::deque<int>>(11, [](int n) { return std::deque<int>(size_t(n), 3); });
		container<std::list<int>>(12, [](int n) { return std::list<int>(size_t(n), 3); });
		container<std::forward_list<int>>(13, [](int n) { return std::forward_list<int>(size_t(n), 3); });
		container<std::string>(14, [](int n) { return std::string(size_t(n), 'x'); });
		container<std::set<int>>(15,
								 [](int n)
								 {
									 std::set<int> s;
									 for (int i = 0; i < n; i++)
										 s.insert(i);
									 return s;
								 });
		container<std::map<int, int>>(16,
									  [](int n)
									  {
										  std::map<int, int> s;
										  for (int i = 0; i < n; i++)
											  s[i] = i;
										  return s;
									  });
	}
	if (vf::group("distance"))
		for (int i = -20; i <= 20; i++)
			for (int j = i; j <= 20; j++)
			{
				vf::at(i, j);
				vf::state();
				using namespace user;
				counting::steps = 0;
				VF_CHECK(muu::iterator_distance(counting{ i }, counting{ j }) == j - i, "without subtraction");
				VF_CHECK(counting::steps == j - i, "a forward iterator is stepped");
				counting::steps = 0;
				subtracting<int> si, sj;
				si.v = i, sj.v = j;
				VF_CHECK(muu::iterator_distance(si, sj) == j - i, "with subtraction");
				VF_CHECK(muu::iterator_distance(sj, si) == i - j, "with subtraction, backwards");
				VF_CHECK(counting::steps == 0, "subtraction was available but the iterator was stepped");
				subtracting<long long> li, lj;
				li.v = i, lj.v = j;
				VF_CHECK(muu::iterator_distance(li, lj) == j - i, "with long subtraction");
				VF_CHECK(muu::iterator_distance(counting{ i }, sentinel{ j }) == j - i, "with a sentinel");
				subtracting<steps_t> ei, ej;
				ei.v = i, ej.v = j;
				VF_CHECK(muu::iterator_distance(ei, ej) == j - i, "with subtraction giving an enum");
				VF_CHECK(counting::steps == 0, "subtraction was available but the iterator was stepped");
				subtracting<double> di, dj;
				di.v = i, dj.v = j;
				VF_CHECK(muu::iterator_distance(di, dj) == j - i, "with subtraction giving a double");
				vf::trans(7);
			}
#endif
#if GRP == 3 || GRP < 0
	if (vf::group("literals"))
		literal_all(std::make_index_sequence<std::size(ull_values)>{});
	if (vf::group("bit_cast"))
	{
		for (int i = 0; i < 256; i++)
			cast_all<uint8_t, uint8_t, int8_t, char, unsigned char, e1, std::byte>(static_cast<uint8_t>(i));
		for (int i = 0; i < 65536; i++)
			cast_all<uint16_t, uint16_t, int16_t, char16_t, s2, std::array<uint8_t, 2>>(static_cast<uint16_t>(i));
		for (uint64_t a : { 0ull, 1ull, 0x80ull, 0x7full, 0xffull, 0x8000ull, 0x7fffull, 0xffffull })
			for (uint64_t b : { 0ull, 1ull, 0x80ull, 0x7full, 0xffull, 0x8000ull, 0x7f80ull, 0x7fc0ull, 0x7fffull, 0xff80ull })
			{
				cast_all<uint32_t, uint32_t, int32_t, float, char32_t, s4, e4, no_default, std::array<int8_t, 4>>(
					static_cast<uint32_t>(a | b << 16));
				for (uint64_t c : { 0ull, 1ull, 0xffffull })
					for (uint64_t d : { 0ull, 1ull, 0x7ff0ull, 0x7ff8ull, 0x8000ull, 0xffffull })
						cast_all<uint64_t, uint64_t, int64_t, double, s8, std::array<float, 2>, void*>(a | b << 16 | c << 32 | d << 48);
			}
		static_assert(muu::bit_cast<uint32_t>(1.0f) == 0x3f800000u && muu::bit_cast<double>(0x4000000000000000ull) == 2.0);
	}
	if (vf::group("alignment"))
	{
		alignas(4096) static unsigned char mem[4096];
		aligned<1>(mem);
		aligned<2>(mem);
		aligned<4>(mem);
		aligned<8>(mem);
		aligned<16>(mem);
		aligned<64>(mem);
		aligned<256>(mem);
		aligned<4096>(mem);
	}
	#ifndef __clang__
	if (vf::group("paths"))
		path_all(std::make_index_sequence<1 + 4 + 16 + 64 + 256>{});
	#endif
	if (vf::group("location"))
	{
		vf::at(0);
		vf::state();
		auto a = here(__LINE__), b = here(__LINE__);
		auto c = here(__LINE__);
		VF_CHECK(a.where.line() == static_cast<unsigned>(a.line) && b.where.line() == static_cast<unsigned>(b.line)
					 && c.where.line() == static_cast<unsigned>(c.line),
				 "line");
		VF_CHECK(std::string(a.where.file_name()) == __FILE__, "file");
		VF_CHECK(std::string(a.where.function_name()) == "main", "function is %s", a.where.function_name());
		VF_CHECK(std::string(a.where.file_name_tail()) == "d_core.cpp", "tail");
		muu::source_location none;
		VF_CHECK(none.line() == 0 && none.column() == 0 && !*none.file_name() && !*none.function_name() && !*none.file_name_tail(), "default");
		vf::trans(5);
		volatile int x = 1;
		bool ce		   = muu::is_constant_evaluated() && x;
		VF_CHECK(!ce, "is_constant_evaluated at run time");
	}
	if (vf::group("flags"))
	{
		std::vector<uint8_t> v8;
		std::vector<int8_t> vi8;
		for (int i = 0; i < 256; i++)
		{
			v8.push_back(static_cast<uint8_t>(i));
			vi8.push_back(static_cast<int8_t>(i));
		}
		flags<user::f8>(0, v8);
		flags<user::fi8>(1, vi8);
		std::vector<unsigned> v32{ 0, ~0u };
		std::vector<uint16_t> v16{ 0, 0xffff };
		for (int i = 0; i < 32; i++)
		{
			v32.push_back(1u << i);
			v32.push_back((1u << i) - 1 + (1u << 31));
			v16.push_back(static_cast<uint16_t>(1u << (i % 16)));
		}
		flags<user::f32>(2, v32);
		flags<user::nest::f16>(3, v16);
	}
	if (vf::group("special_members"))
	{
		members<only_move>(0, false, true);
		members<only_copy>(1, true, true);
		members<neither>(2, false, false);
		members<everything>(3, true, true);
	}
	if (vf::group("unwrap"))
	{
		vf::at(0);
		vf::state();
		int x		 = 4;
		const int cx = 5;
		VF_CHECK((std::is_same_v<decltype(muu::unwrap(x)), int&>) && &muu::unwrap(x) == &x, "unwrap of an lvalue");
		VF_CHECK((std::is_same_v<decltype(muu::unwrap(cx)), const int&>) && &muu::unwrap(cx) == &cx, "unwrap of a const lvalue");
		VF_CHECK((std::is_same_v<decltype(muu::unwrap(std::move(x))), int&&>), "unwrap of an rvalue");
		VF_CHECK(std::string(MUU_MAKE_STRING(MUU_CONCAT(ab, MUU_CONCAT(c, 12)))) == "abc12", "MUU_CONCAT");
		VF_CHECK(std::string(MUU_MAKE_STRING(a + b)) == "a + b", "MUU_MAKE_STRING");
		struct pod
		{
			char a;
			double b;
			int c[3];
		};
		VF_CHECK(MUU_OFFSETOF(pod, b) == offsetof(pod, b) && MUU_OFFSETOF(pod, c) == offsetof(pod, c), "MUU_OFFSETOF");
		std::string s = "moved";
		std::string t = MUU_MOVE(s);
		VF_CHECK(t == "moved" && s.empty(), "MUU_MOVE");
		VF_CHECK((std::is_same_v<decltype(MUU_MOVE(s)), std::string&&>), "MUU_MOVE type");
		vf::trans(8);
	}
#endif
	vf::finish();
}
