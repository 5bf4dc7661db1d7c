// N05: min / max / clamp / between / unwrap / apply_offset / to_address.
#include "muu/core.h"
#include "muu/half.h"
#include "vf.h"
#include <algorithm>
#include <limits>
#include <memory>
#include <cmath>

using namespace muu;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
#if MUU_HAS_INT128
using i128 = __int128;
using u128 = unsigned __int128;
#endif

// ---- exact comparison of any two integers
struct big
{
	bool neg;
	unsigned __int128 mag;
	template <class T> explicit big(T v) : neg(v < T(0)), mag(v < T(0) ? (unsigned __int128)0 - (unsigned __int128)v : (unsigned __int128)v) {}
	friend bool operator<=(const big& a, const big& b)
	{
		if (a.neg != b.neg) return a.neg;
		return a.neg ? a.mag >= b.mag : a.mag <= b.mag;
	}
};
template <class T> static std::vector<T> edge()
{
	T hi = 0;
	constexpr bool sg = T(-1) < T(1);
	for (unsigned i = 0; i < sizeof(T) * 8 - (sg ? 1 : 0); i++) hi = T(hi | T(T(1) << i));
	const T lo = sg ? T(-hi - 1) : T(0);
	std::vector<T> v{ lo, T(lo + 1), T(lo / 2), T(lo / 2 + 1), T(0), T(1), T(2), T(hi / 2), T(hi / 2 + 1), T(hi - 1), hi };
	if (sg) v.push_back(T(-1)), v.push_back(T(-2)), v.push_back(T(-128)), v.push_back(T(127));
	else v.push_back(T(127)), v.push_back(T(128)), v.push_back(T(255));
	return v;
}
template <class T, class U> static void btw_one(T v, U l, U h)
{
	const bool want = big(l) <= big(v) && big(v) <= big(h);
	VF_CHECK(between(v, l, h) == want, "between = %d", int(!want));
}
template <class T, class U> static void btw(const char* n)
{
	vf::text(n);
	if constexpr (sizeof(T) == 1 && sizeof(U) == 1)
	{
		for (int a = 0; a < 256; a++)
		{
			if (!mine_()) continue;
			for (int b = 0; b < 256; b++) for (int c = 0; c < 256; c++)
			{
				vf::at(a, b, c);
				btw_one(T(a), U(b), U(c));
			}
			vf::state(65536), vf::trans(65536);
		}
	}
	else
	{
		int i = 0;
		for (T a : edge<T>()) for (U b : edge<U>()) for (U c : edge<U>())
		{
			i++;
			if (!mine_()) continue;
			vf::at(i, int64_t(a), int64_t(b), int64_t(c)), vf::state(), vf::trans();
			btw_one(a, b, c);
		}
	}
}
enum class es : int { neg = -5, zero = 0, five = 5, top = INT_MAX };
enum class eu : unsigned { zero = 0, five = 5, top = UINT_MAX };
struct keyed // only has <= (const)
{
	int k;
	friend bool operator<=(const keyed& a, const keyed& b) { return a.k <= b.k; }
};

template <class F> static void fbtw(const char* n)
{
	vf::text(n);
	using L   = std::numeric_limits<F>;
	const F vals[] = { F(-3), F(-0.5f), F(-0.0f), F(0), F(0.5f), F(1), F(2.5f), L::infinity(), F(-L::infinity()), L::quiet_NaN(), L::lowest(), (L::max)(), L::denorm_min() };
	int i = 0;
	for (F a : vals) for (F b : vals) for (F c : vals)
	{
		i++;
		if (!mine_()) continue;
		vf::at(i), vf::state(), vf::trans(3);
		const long double da = a, db = b, dc = c;
		VF_CHECK(between(a, b, c) == (db <= da && da <= dc), "between(%Lg, %Lg, %Lg)", da, db, dc);
		if constexpr (std::is_floating_point_v<F>) for (int iv : { -3, -1, 0, 1, 2, 3 })
		{
			VF_CHECK(between(iv, b, c) == (db <= iv && iv <= dc), "between(%d, %Lg, %Lg)", iv, db, dc);
			if (iv >= 0) VF_CHECK(between(unsigned(iv), b, c) == (db <= iv && iv <= dc), "between(%uu, %Lg, %Lg)", iv, db, dc);
			VF_CHECK(between(a, iv, iv + 2) == (iv <= da && da <= iv + 2), "between(%Lg, %d, %d)", da, iv, iv + 2);
			if (iv >= 0) VF_CHECK(between(a, unsigned(iv), unsigned(iv) + 2) == (iv <= da && da <= iv + 2), "between(%Lg, %du, %du)", da, iv, iv + 2);
		}
	}
}

// ---- min / max / clamp return a reference to the element std's would
struct tagged
{
	int k, tag;
	friend constexpr bool operator<(const tagged& a, const tagged& b) { return a.k < b.k; }
};
template <size_t... I> static void mm(const tagged* t, std::index_sequence<I...>)
{
	const tagged* lo = t;
	const tagged* hi = t;
	for (size_t i = 1; i < sizeof...(I); i++)
	{
		if (t[i] < *lo) lo = t + i;
		if (*hi < t[i]) hi = t + i;
	}
	VF_CHECK(&muu::min(t[I]...) == lo, "min of %zu returned #%d, want #%d", sizeof...(I), muu::min(t[I]...).tag, lo->tag);
	VF_CHECK(&muu::max(t[I]...) == hi, "max of %zu returned #%d, want #%d", sizeof...(I), muu::max(t[I]...).tag, hi->tag);
}
template <size_t N> static void minmax_n()
{
	constexpr int K = N <= 5 ? 4 : 3;
	int total = 1;
	for (size_t i = 0; i < N; i++) total *= K;
	for (int x = 0; x < total; x++)
	{
		if (!mine_()) continue;
		vf::at(int(N), x), vf::state(), vf::trans(2);
		tagged t[N];
		for (size_t i = 0, y = size_t(x); i < N; i++, y /= K) t[i] = { int(y % K), int(i) };
		mm(t, std::make_index_sequence<N>{});
	}
}

template <class T, class O> static void off(T* base, O o, const char* n)
{
	const uintptr_t want = reinterpret_cast<uintptr_t>(base) + uintptr_t(intptr_t(o));
	static_assert(std::is_same_v<decltype(apply_offset(base, o)), T*>);
	VF_CHECK(reinterpret_cast<uintptr_t>(apply_offset(base, o)) == want, "apply_offset %s by %lld", n, (long long)o);
}
alignas(64) static unsigned char buf[1024];
template <class T> static void offs(const char* n)
{
	vf::text(n);
	for (int o = -300; o <= 300; o++)
	{
		if (!mine_()) continue;
		vf::at(o), vf::state(), vf::trans(6);
		T* p = static_cast<T*>(static_cast<void*>(buf + 512));
		off<T>(p, o, n), off<T>(p, long(o), n), off<T>(p, short(o), n), off<T>(p, (long long)(o), n);
		if (o >= -128 && o < 128) off<T>(p, (signed char)(o), n);
		if (o >= 0) off<T>(p, unsigned(o), n), off<T>(p, size_t(o), n), off<T>(p, uint16_t(o), n);
		if (o >= 0 && o < 256) off<T>(p, uint8_t(o), n);
		off<const T>(p, o, n), off<volatile T>(p, o, n), off<const volatile T>(p, o, n);
	}
}
constexpr unsigned char ctbuf[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
static_assert(*apply_offset(ctbuf, 3) == 4 && *apply_offset(ctbuf + 7, -2) == 6);
static_assert(between(5, 0u, 10u) && !between(-1, 0u, 10u) && between(5u, -1, 10) && !between(5u, -2, -1) && between(es::neg, es::neg, es::zero));
static_assert(muu::min(3, 1, 2) == 1 && muu::max(3, 1, 2) == 3 && muu::clamp(5, 0, 3) == 3);
static_assert(unwrap(es::five) == 5 && std::is_same_v<decltype(unwrap(es::five)), int> && unwrap(eu::top) == UINT_MAX && unwrap(7) == 7);

struct fancy { int* p; int* operator->() const { return p; } };
struct fancy2 { fancy f; fancy operator->() const { return f; } };

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	if (vf::group("between"))
	{
#define B1(T) B2(T, int8_t) B2(T, uint8_t) B2(T, int16_t) B2(T, uint16_t) B2(T, int32_t) B2(T, uint32_t) B2(T, int64_t) B2(T, uint64_t) B2(T, long long) B2(T, unsigned long long) B3(T)
#define B2(T, U) btw<T, U>(#T " in " #U);
#if MUU_HAS_INT128
#define B3(T) B2(T, i128) B2(T, u128)
		B1(i128) B1(u128)
#else
#define B3(T)
#endif
		B1(int8_t) B1(uint8_t) B1(int16_t) B1(uint16_t) B1(int32_t) B1(uint32_t) B1(int64_t) B1(uint64_t) B1(long long) B1(unsigned long long)
	}
	if (vf::group("between_enum") && mine_())
	{
		vf::at(0);
		const es ss[] = { es::neg, es::zero, es::five, es::top };
		const eu us[] = { eu::zero, eu::five, eu::top };
		for (es a : ss) for (es b : ss) for (es c : ss)
		{
			vf::state(), vf::trans(2);
			VF_CHECK(between(a, b, c) == (int(b) <= int(a) && int(a) <= int(c)), "between(es)");
			VF_CHECK(between(int(a), b, c) == (int(b) <= int(a) && int(a) <= int(c)), "between(int, es)");
			for (eu u : us) VF_CHECK(between(u, b, c) == (int64_t(b) <= int64_t(u) && int64_t(u) <= int64_t(c)), "between(eu, es)");
			for (eu u : us) for (eu w : us) VF_CHECK(between(a, u, w) == (int64_t(u) <= int64_t(a) && int64_t(a) <= int64_t(w)), "between(es, eu)");
		}
		for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++)
			VF_CHECK(between(keyed{ a }, keyed{ b }, keyed{ c }) == (b <= a && a <= c), "between(user type)");
	}
	if (vf::group("between_float")) { fbtw<float>("float"); fbtw<double>("double"); fbtw<long double>("long double"); fbtw<half>("half"); }
	if (vf::group("minmax"))
	{
		minmax_n<2>(); minmax_n<3>(); minmax_n<4>(); minmax_n<5>(); minmax_n<6>(); minmax_n<7>(); minmax_n<8>(); minmax_n<9>();
	}
	if (vf::group("minmax_float"))
	{
		const double v[] = { NAN, -INFINITY, -1, -0.0, 0.0, 1, INFINITY };
		for (const double& a : v) for (const double& b : v)
		{
			if (!mine_()) continue;
			vf::at(int64_t(&a - v), int64_t(&b - v)), vf::state(), vf::trans(2);
			VF_CHECK(&muu::min(a, b) == &std::min(a, b), "min(%g, %g)", a, b);
			VF_CHECK(&muu::max(a, b) == &std::max(a, b), "max(%g, %g)", a, b);
		}
	}
	if (vf::group("clamp"))
		for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int c = b; c < 6; c++)
		{
			if (!mine_()) continue;
			vf::at(a, b, c), vf::state(), vf::trans();
			const tagged x{ a, 0 }, lo{ b, 1 }, hi{ c, 2 };
			VF_CHECK(&muu::clamp(x, lo, hi) == &std::clamp(x, lo, hi), "clamp(%d, %d, %d)", a, b, c);
			const float fa = float(a) - 2.5f, fb = float(b) - 2, fc = float(c) - 2;
			VF_CHECK(&muu::clamp(fa, fb, fc) == &std::clamp(fa, fb, fc), "clamp(%g, %g, %g)", fa, fb, fc);
		}
	if (vf::group("apply_offset"))
	{
		offs<char>("char"), offs<unsigned char>("uchar"), offs<signed char>("schar"), offs<std::byte>("byte"), offs<void>("void"), offs<int>("int");
		offs<double>("double"), offs<tagged>("struct"), offs<int*>("pointer"), offs<bool>("bool");
	}
	if (vf::group("to_address") && mine_())
	{
		vf::at(0), vf::state(), vf::trans(8);
		int a[3]{ 1, 2, 3 };
		std::unique_ptr<int> u(new int(4));
		std::shared_ptr<int> s(new int(5));
		std::vector<int> v{ 1, 2, 3 };
		VF_CHECK(muu::to_address(a + 1) == a + 1 && muu::to_address(static_cast<const int*>(a)) == a, "pointer");
		VF_CHECK(muu::to_address(u) == u.get() && muu::to_address(s) == s.get(), "smart pointer");
		VF_CHECK(muu::to_address(v.begin() + 1) == v.data() + 1 && muu::to_address(v.cbegin()) == v.data(), "vector iterator");
		VF_CHECK(muu::to_address(fancy{ a }) == a && muu::to_address(fancy2{ { a + 2 } }) == a + 2, "operator->");
		int* np = nullptr;
		VF_CHECK(muu::to_address(np) == nullptr, "null");
	}
	return vf::finish();
}
