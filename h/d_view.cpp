// D01 span, D03 static_array, D09 integral_range: exhaustive small ranges and operation sequences against index models.
#include "vf.h"
#include <muu/span.h>
#include <muu/static_array.h>
#include <muu/integral_range.h>
#include <array>
#include <vector>
#include <limits>
#include <algorithm>
using namespace muu;

namespace
{
	struct odd
	{
		char c[3];
	};
	struct alignas(16) wide
	{
		int v[4];
	};
	struct base_
	{
		int a;
	};

	constexpr size_t MAXN = 6;
	template <typename T>
	struct store
	{
		alignas(64) std::remove_const_t<T> d[MAXN + 2]; // one guard element on each side is addressed explicitly
	};
	template <typename T>
	store<T> mem;

	// a span must denote exactly [p, p + n)
	template <typename S, typename T>
	void denotes(const S& s, T* p, size_t n, const char* what)
	{
		vf::trans();
		bool ok = s.data() == p && s.size() == n && s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0)
			   && s.begin() == p && s.end() == p + n && begin(s) == p && end(s) == p + n
			   && (size_t)(s.rend() - s.rbegin()) == n && (size_t)(rend(s) - rbegin(s)) == n;
		for (size_t i = 0; ok && i < n; i++)
			ok = &s[i] == p + i && &s.begin()[i] == p + i && &*(s.rbegin() + (ptrdiff_t)i) == p + (n - 1 - i);
		if (ok && n)
			ok = &s.front() == p && &s.back() == p + n - 1;
		VF_CHECK(ok, "%s: the span is not [start, start + %zu)", what, n);
	}

	// every sequence of `depth` sub-views of a dynamic span
	template <typename T>
	void walk(span<T> s, T* p, size_t n, int depth)
	{
		vf::state();
		if (!depth)
			return;
		for (size_t k = 0; k <= n; k++)
		{
			denotes(s.first(k), p, k, "first(count)");
			denotes(s.last(k), p + (n - k), k, "last(count)");
			walk<T>(s.first(k), p, k, depth - 1);
			walk<T>(s.last(k), p + (n - k), k, depth - 1);
		}
		for (size_t o = 0; o <= n; o++)
		{
			denotes(s.subspan(o), p + o, n - o, "subspan(offset)");
			denotes(s.subspan(o, dynamic_extent), p + o, n - o, "subspan(offset, dynamic_extent)");
			for (size_t c = 0; c <= n - o; c++)
			{
				denotes(s.subspan(o, c), p + o, c, "subspan(offset, count)");
				walk<T>(s.subspan(o, c), p + o, c, depth - 1);
			}
		}
	}

	template <typename T, size_t E, size_t... I>
	void fixed_parts(span<T, E> s, T* p, std::index_sequence<I...>)
	{
		// I ranges over 0..E
		(denotes(s.template first<I>(), p, I, "first<>"), ...);
		(denotes(s.template last<I>(), p + (E - I), I, "last<>"), ...);
		(denotes(s.template subspan<I>(), p + I, E - I, "subspan<offset>"), ...);
		([&]
		 {
			 constexpr size_t O = I;
			 [&]<size_t... J>(std::index_sequence<J...>)
			 { (denotes(s.template subspan<O, J>(), p + O, J, "subspan<offset, count>"), ...); }(std::make_index_sequence<E - O + 1>{});
		 }(),
		 ...);
		static_assert(((decltype(s.template first<I>())::extent == I) && ...));
		static_assert(((decltype(s.template last<I>())::extent == I) && ...));
	}

	template <typename T, size_t E>
	void fixed(T* p)
	{
		using U = std::remove_const_t<T>;
		vf::at(E);
		vf::state();
		span<T, E> s{ p, E };
		static_assert(decltype(s)::extent == E);
		denotes(s, p, E, "fixed span");
		span<T> d{ s };
		denotes(d, p, E, "dynamic from fixed");
		span<T, E> back{ d };
		denotes(back, p, E, "fixed from dynamic");
		span<const T> cd{ s };
		denotes(cd, (const T*)p, E, "const dynamic from fixed");
		const_span<U, E> cs{ s };
		denotes(cs, (const T*)p, E, "const fixed from fixed");
		span<T, E> cp = s;
		cp			  = back;
		denotes(cp, p, E, "copy");
		span<T, E> it{ p, p + E };
		denotes(it, p, E, "fixed from iterators");
		fixed_parts<T, E>(s, p, std::make_index_sequence<E + 1>{});
		auto w = as_bytes(s);
		VF_REQ((const void*)w.data() == (const void*)p && w.size() == E * sizeof(T));
		static_assert(decltype(w)::extent == E * sizeof(T));
		auto w2 = as_bytes(d);
		VF_REQ((const void*)w2.data() == (const void*)p && w2.size() == E * sizeof(T));
		if constexpr (!std::is_const_v<T>)
		{
			auto ww = as_writable_bytes(s);
			VF_REQ((void*)ww.data() == (void*)p && ww.size() == E * sizeof(T));
			auto wd = as_writable_bytes(d);
			VF_REQ((void*)wd.data() == (void*)p && wd.size() == E * sizeof(T));
		}
		for (size_t n = 0; n <= E; n++)
			walk<T>(s.first(n), p, n, 2);
		// a span of another extent must not convert to this one
		static_assert(!std::is_constructible_v<span<T, E>, const span<T, E + 1>&>);
		static_assert(!std::is_constructible_v<span<T, E + 1>, const span<T, E>&>);
		// C arrays, std::array, deduction
		if constexpr (E > 0)
		{
			auto& a = *reinterpret_cast<T(*)[E]>(p);
			denotes(span<T>{ a }, p, E, "from C array");
			denotes(span<T, E>{ a }, p, E, "fixed from C array");
			denotes(span{ a }, p, E, "deduced from C array");
			static_assert(decltype(span{ a })::extent == E);
			static_assert(!std::is_constructible_v<span<T, E + 1>, T(&)[E]>);
			std::array<U, E> arr{};
			denotes(span<U>{ arr }, arr.data(), E, "from std::array");
			denotes(span<U, E>{ arr }, arr.data(), E, "fixed from std::array");
			denotes(span<const U>{ arr }, (const U*)arr.data(), E, "const from std::array");
			denotes(span<const U>{ std::as_const(arr) }, (const U*)arr.data(), E, "const from const std::array");
			denotes(span<const U, E>{ std::as_const(arr) }, (const U*)arr.data(), E, "const fixed from const std::array");
			denotes(span{ arr }, arr.data(), E, "deduced from std::array");
			std::vector<U> v(E);
			denotes(span<U>{ v.begin(), v.end() }, v.data(), E, "from vector iterators");
			denotes(span<const U>{ v.cbegin(), v.size() }, (const U*)v.data(), E, "from vector iterator and count");
			denotes(span{ v.data(), E }, v.data(), E, "deduced from pointer and count");
		}
	}

	template <typename T, size_t... E>
	void all_extents(std::index_sequence<E...>)
	{
		(fixed<T, E>(mem<T>.d + 1), ...);
	}

	template <size_t A>
	void aligned()
	{
		alignas(A) static int d[MAXN * A];
		using S = span<int, dynamic_extent, A>;
		static_assert(S::alignment == A);
		for (size_t n = 0; n <= MAXN; n++)
		{
			vf::at(A, n);
			vf::state();
			S s{ d, n };
			denotes(s, d, n, "aligned span");
			denotes(s.first(n / 2), d, n / 2, "aligned first");
			denotes(s.last(n / 2), d + (n - n / 2), n / 2, "aligned last");
			if (n)
				denotes(s.subspan(1), d + 1, n - 1, "aligned subspan");
			S c{ s };
			denotes(c, d, n, "aligned copy");
			span<const int, dynamic_extent, A> k{ s };
			denotes(k, (const int*)d, n, "aligned to const");
			span<int> plain{ s };
			denotes(plain, d, n, "plain from aligned");
			denotes(as_bytes(s), (const std::byte*)d, n * sizeof(int), "bytes of aligned");
		}
		span<int, 4, A> f{ d, 4 };
		denotes(f, d, 4, "aligned fixed");
		denotes(f.template first<2>(), d, 2, "aligned fixed first");
		denotes(f.template last<2>(), d + 2, 2, "aligned fixed last");
	}

	constexpr bool constexpr_span()
	{
		int a[6]{ 1, 2, 3, 4, 5, 6 };
		span<int> s{ a };
		int sum = 0;
		for (auto v : s.subspan(1, 4))
			sum += v;
		if (sum != 14)
			return false;
		s[2] = 10;
		span<const int, 6> f{ a };
		return f[2] == 10 && f.first<3>().back() == 10 && f.last<1>().front() == 6 && *f.rbegin() == 6
			&& s.subspan(6).empty() && s.last(0).empty() && span<int>{}.empty() && span<int, 0>{}.size() == 0;
	}
	static_assert(constexpr_span());

	void d01()
	{
		if (vf::group("views"))
		{
			std::index_sequence<0, 1, 2, 3, 4, 5, 6> e;
			if (vf::mine(0))
				all_extents<int>(e);
			if (vf::mine(1))
				all_extents<const int>(e);
			if (vf::mine(2))
				all_extents<odd>(e);
			if (vf::mine(3))
				all_extents<const odd>(e);
			if (vf::mine(4))
				all_extents<wide>(e);
			if (vf::mine(5))
				all_extents<std::byte>(e);
			if (vf::mine(6))
				all_extents<double>(e);
		}
		if (vf::group("walk") && vf::mine(7))
			for (size_t n = 0; n <= MAXN; n++)
			{
				vf::at(n);
				walk<int>(span<int>{ mem<int>.d + 1, n }, mem<int>.d + 1, n, vf::thorough ? 4 : 3);
			}
		if (vf::group("aligned") && vf::mine(6))
		{
			aligned<4>();
			aligned<8>();
			aligned<16>();
			aligned<32>();
			aligned<64>();
			aligned<128>();
		}
		if (vf::group("empty") && vf::mine(5))
		{
			vf::at(0);
			denotes(span<int>{}, (int*)nullptr, 0, "default");
			denotes(span<int, 0>{}, (int*)nullptr, 0, "default fixed");
			denotes(span<int>{ (int*)nullptr, size_t{} }, (int*)nullptr, 0, "null, 0");
			denotes(span<int>{}.first(0), (int*)nullptr, 0, "first(0) of empty");
			denotes(span<int>{}.last(0), (int*)nullptr, 0, "last(0) of empty");
			denotes(span<int>{}.subspan(0), (int*)nullptr, 0, "subspan(0) of empty");
			denotes(span<int>{}.subspan(0, 0), (int*)nullptr, 0, "subspan(0, 0) of empty");
			// writes through a span reach the elements, and only them
			int a[5]{ 1, 2, 3, 4, 5 };
			for (size_t o = 0; o < 5; o++)
				for (size_t c = 0; c <= 5 - o; c++)
				{
					int b[5]{ 1, 2, 3, 4, 5 };
					for (auto& v : span<int>{ b }.subspan(o, c))
						v = -v;
					for (size_t i = 0; i < 5; i++)
						VF_REQ(b[i] == (i >= o && i < o + c ? -a[i] : a[i]));
					vf::trans();
				}
			vf::sample("span: all subspan windows of a 5 element array");
		}
	}

	// --------------------------------------------------------------------------------------------- static_array
	template <typename T, T... V>
	void sa_self()
	{
		using A = static_array<T, V...>;
		vf::state();
		vf::trans();
		static constexpr size_t N = sizeof...(V);
		constexpr A a{};
		const T want[] = { V... };
		VF_REQ(a.size() == N);
		VF_REQ(!a.empty());
		VF_REQ(a.end() - a.begin() == (ptrdiff_t)N && a.cend() - a.cbegin() == (ptrdiff_t)N);
		VF_REQ(end(a) - begin(a) == (ptrdiff_t)N && cend(a) - cbegin(a) == (ptrdiff_t)N);
		VF_REQ(a.front() == want[0] && a.back() == want[N - 1] && a.data() == a.begin());
		for (size_t i = 0; i < N; i++)
			VF_REQ(a[i] == want[i] && a.data()[i] == want[i] && a.begin()[i] == want[i] && A::values[i] == want[i]);
		size_t k = 0;
		for (auto it = a.begin(); it != a.end(); ++it)
			VF_REQ(*it == want[k++]);
		VF_REQ(k == N);
	}
	template <typename A, typename B>
	void sa_pair(const std::vector<long>& a, const std::vector<long>& b)
	{
		vf::trans();
		constexpr A x{};
		constexpr B y{};
		VF_CHECK((x == y) == (a == b) && (x != y) == (a != b), "equality");
		VF_CHECK((x < y) == (a < b), "operator<");
		VF_CHECK((x <= y) == (a <= b), "operator<=");
		VF_CHECK((x > y) == (a > b), "operator>");
		VF_CHECK((x >= y) == (a >= b), "operator>=");
	}
	template <typename T, size_t Code, size_t Len, typename = std::make_index_sequence<Len>>
	struct word;
	constexpr long letters[3] = { 1, 2, 5 };
	constexpr size_t p3(size_t i)
	{
		return i ? 3 * p3(i - 1) : 1;
	}
	template <typename T, size_t Code, size_t Len, size_t... I>
	struct word<T, Code, Len, std::index_sequence<I...>>
	{
		using type = static_array<T, (T)letters[(Code / p3(I)) % 3]...>;
		static std::vector<long> model()
		{
			return { letters[(Code / p3(I)) % 3]... };
		}
		static void self()
		{
			sa_self<T, (T)letters[(Code / p3(I)) % 3]...>();
		}
	};
	template <typename T, size_t L1, size_t L2, size_t C1, size_t... C2>
	void sa_row(std::index_sequence<C2...>)
	{
		using W = word<T, C1, L1>;
		(sa_pair<typename W::type, typename word<T, C2, L2>::type>(W::model(), word<T, C2, L2>::model()), ...);
	}
	template <typename T, size_t L1, size_t L2, size_t... C1>
	void sa_rows(std::index_sequence<C1...>)
	{
		vf::at(L1, L2);
		(sa_row<T, L1, L2, C1>(std::make_index_sequence<p3(L2)>{}), ...);
	}
	template <typename T, size_t L, size_t... C>
	void sa_selves(std::index_sequence<C...>)
	{
		vf::at(L);
		(word<T, C, L>::self(), ...);
	}
	enum class en : unsigned char
	{
		a = 1,
		b = 2,
		c = 5
	};
	void d03()
	{
		if (vf::group("elements") && vf::mine(0))
		{
			sa_selves<int, 1>(std::make_index_sequence<3>{});
			sa_selves<int, 2>(std::make_index_sequence<9>{});
			sa_selves<int, 3>(std::make_index_sequence<27>{});
			sa_selves<unsigned char, 2>(std::make_index_sequence<9>{});
			sa_selves<long long, 3>(std::make_index_sequence<27>{});
			sa_selves<char, 3>(std::make_index_sequence<27>{});
			sa_selves<en, 3>(std::make_index_sequence<27>{});
			sa_self<int, 0, -1, 2147483647, -2147483647 - 1>();
			sa_self<bool, true, false>();
			sa_self<unsigned long long, 18446744073709551615ull, 0, 1>();
			vf::sample("static_array: 129 arrays of up to 3 elements");
		}
		if (vf::group("compare"))
		{
			if (vf::mine(1))
				sa_rows<int, 1, 1>(std::make_index_sequence<3>{});
			if (vf::mine(2))
				sa_rows<int, 1, 2>(std::make_index_sequence<3>{});
			if (vf::mine(2))
				sa_rows<int, 2, 1>(std::make_index_sequence<9>{});
			if (vf::mine(3))
				sa_rows<int, 2, 2>(std::make_index_sequence<9>{});
			if (vf::mine(4))
				sa_rows<int, 3, 1>(std::make_index_sequence<27>{});
			if (vf::mine(5))
				sa_rows<int, 2, 3>(std::make_index_sequence<9>{});
			if (vf::mine(6))
				sa_rows<int, 3, 2>(std::make_index_sequence<27>{});
			if (vf::mine(7))
				sa_rows<int, 3, 3>(std::make_index_sequence<27>{});
			if (vf::mine(1))
				sa_rows<char, 2, 2>(std::make_index_sequence<9>{});
			if (vf::mine(3))
				sa_rows<en, 2, 2>(std::make_index_sequence<9>{});
		}
	}

	// ------------------------------------------------------------------------------------------- integral_range
	template <typename T>
	void range_one(T s, T e, bool iterate)
	{
		vf::state();
		vf::trans();
		vf::at((int64_t)s, (int64_t)e);
		integral_range<T> r{ s, e };
		const __int128 n = (__int128)e - (__int128)s;
		VF_REQ(r.s == s && r.e == e && r.first() == s);
		VF_REQ((bool)r == (n > 0) && r.empty() == (n == 0));
		VF_REQ((__int128)r.size() == n);
		if (n)
			VF_REQ(r.last() == (T)(e - 1));
		VF_REQ(*r.begin() == s && *r.end() == e && *begin(r) == s && *end(r) == e);
		if (n <= (__int128)std::numeric_limits<ptrdiff_t>::max())
			VF_REQ((__int128)(r.end() - r.begin()) == n && (__int128)(r.begin() - r.end()) == -n);
		VF_REQ((r.begin() == r.end()) == (n == 0) && (r.begin() != r.end()) == (n != 0));
		// jumps of every kind of length, in both offset types, including those that cross zero and half the type
		{
			using iter = decltype(r.begin());
			using D	   = typename iter::difference_type;
			using S	   = typename iter::size_type;
			for (__int128 k : { (__int128)0, (__int128)1, n / 3, n / 2 - 1, n / 2, n / 2 + 1, n / 2 + 5, n - 1, n })
			{
				if (k < 0 || k > n)
					continue;
				vf::trans();
				auto p = r.begin();
				VF_CHECK((__int128)*(p += (S)k) == (__int128)s + k, "begin += %llu (unsigned)", (unsigned long long)k);
				VF_CHECK((p -= (S)k) == r.begin() && *p == s, "... -= %llu (unsigned)", (unsigned long long)k);
				p = r.end();
				VF_CHECK((__int128)*(p -= (S)k) == (__int128)e - k, "end -= %llu (unsigned)", (unsigned long long)k);
				VF_CHECK((p += (S)k) == r.end(), "... += %llu (unsigned)", (unsigned long long)k);
				if (k > (__int128)std::numeric_limits<D>::max())
					continue;
				p = r.begin();
				VF_CHECK((__int128)*(p += (D)k) == (__int128)s + k, "begin += %lld (signed)", (long long)k);
				VF_CHECK((__int128)(p - r.begin()) == k && (__int128)(r.begin() - p) == -k, "distance %lld", (long long)k);
				VF_CHECK(*(p -= (D)k) == s, "... -= %lld (signed)", (long long)k);
				VF_CHECK((__int128)*(p -= -(D)k) == (__int128)s + k, "begin -= %lld (signed)", (long long)-k);
				VF_CHECK(*(p += -(D)k) == s, "... += %lld (signed)", (long long)-k);
				p = r.end();
				VF_CHECK((__int128)*(p -= (D)k) == (__int128)e - k, "end -= %lld (signed)", (long long)k);
				VF_CHECK(*(p += (D)k) == e, "... += %lld (signed)", (long long)k);
			}
		}
		if (!iterate)
			return;
		__int128 want = s;
		size_t k	  = 0;
		for (auto v : r)
		{
			VF_CHECK((__int128)v == want, "iteration %zu gives %lld", k, (long long)v);
			want++;
			if (++k > 70000)
				break;
		}
		VF_CHECK((__int128)k == n, "iterates %zu values", k);
		auto it = r.end();
		for (size_t i = 0; i < k; i++)
		{
			auto old = it--;
			VF_REQ((__int128)*it == (__int128)e - (__int128)i - 1 && (__int128)*old == (__int128)e - (__int128)i);
		}
		VF_REQ(it == r.begin());
		auto j = r.begin();
		for (size_t i = 0; i < k; i++)
		{
			auto a = j++;
			VF_REQ(*a == (T)(s + (T)i));
			--j;
			VF_REQ(j == a);
			++j;
		}
		VF_REQ(j == r.end());
		using it_t = decltype(it);
		for (size_t i = 0; i <= k; i++)
		{
			auto p = r.begin();
			p += (typename it_t::size_type)i;
			VF_REQ((__int128)*p == (__int128)s + (__int128)i);
			p -= (typename it_t::size_type)i;
			VF_REQ(p == r.begin());
			p += (typename it_t::difference_type)i;
			VF_REQ((__int128)*p == (__int128)s + (__int128)i && (__int128)(p - r.begin()) == (__int128)i);
			p += -(typename it_t::difference_type)i;
			VF_REQ(p == r.begin());
			p += (typename it_t::difference_type)i;
			p -= (typename it_t::difference_type)i;
			VF_REQ(p == r.begin());
		}
	}
	template <typename T>
	void range_pair(integral_range<T> a, integral_range<T> b)
	{
		vf::trans();
		vf::at((int64_t)a.s, (int64_t)a.e, (int64_t)b.s, (int64_t)b.e);
		using W		  = __int128;
		const W as	  = a.s, ae = a.e, bs = b.s, be = b.e;
		const bool ea = as == ae, eb = bs == be;
		VF_REQ((a == b) == (as == bs && ae == be) && (a != b) == !(as == bs && ae == be));
		if (ea || eb)
			return; // how an empty range relates to others is not documented
		VF_CHECK(a.contains(b) == (bs >= as && be <= ae), "contains(range)");
		const bool inter = std::max(as, bs) < std::min(ae, be);
		const bool adj	 = as == be || bs == ae;
		VF_CHECK(a.intersects(b) == inter, "intersects");
		VF_CHECK(a.adjacent(b) == adj, "adjacent");
		VF_CHECK(a.intersects_or_adjacent(b) == (inter || adj), "intersects_or_adjacent");
		auto u = a.union_with(b);
		VF_CHECK((W)u.s == std::min(as, bs) && (W)u.e == std::max(ae, be), "union_with");
	}
	template <typename T>
	void ranges(bool small)
	{
		using L = std::numeric_limits<T>;
		std::vector<T> v;
		if (small)
			for (int i = L::min(); i <= (int)L::max(); i++)
				v.push_back((T)i);
		else
		{
			__int128 lo = L::min(), hi = L::max(), mid = (lo + hi) / 2;
			for (__int128 b : { lo, mid - 3, (__int128)-4, hi - 6 })
				for (int i = 0; i <= 6; i++)
				{
					__int128 x = b + i + (b == mid - 3 ? 1 : 0);
					if (x >= lo && x <= hi)
						v.push_back((T)x);
				}
			std::sort(v.begin(), v.end());
			v.erase(std::unique(v.begin(), v.end()), v.end());
		}
		uint64_t idx = 0;
		for (auto s : v)
		{
			if (!vf::mine(idx++))
				continue;
			for (auto e : v)
				if (e >= s)
				{
					range_one<T>(s, e, small ? ((int)e - (int)s < 12 || (int)s == (int)L::min()) : ((__int128)e - (__int128)s < 20));
					integral_range<T> r{ s, e };
					for (auto x : v)
						VF_CHECK(r.contains(x) == ((__int128)x >= (__int128)s && (__int128)x < (__int128)e),
								 "contains(%lld)",
								 (long long)x);
					vf::trans(v.size());
				}
		}
		// pairs over the ends and a few interior values
		std::vector<T> w;
		if (small)
			for (int i : { (int)L::min(), (int)L::min() + 1, -2, -1, 0, 1, 2, 3, 5, 100, (int)L::max() - 1, (int)L::max() })
			{
				if (i >= (int)L::min() && i <= (int)L::max())
					w.push_back((T)i);
			}
		else
			w = v;
		std::sort(w.begin(), w.end());
		w.erase(std::unique(w.begin(), w.end()), w.end());
		for (auto a : w)
			for (auto b : w)
			{
				if (!vf::mine(idx++))
					continue;
				for (auto c : w)
					for (auto d : w)
						if (a <= b && c <= d)
							range_pair<T>({ a, b }, { c, d });
			}
	}
	template <typename P>
	void ptr_ranges()
	{
		static std::remove_pointer_t<P> m[8];
		for (int s = 0; s <= 8; s++)
			for (int e = s; e <= 8; e++)
			{
				vf::at(s, e);
				vf::state();
				integral_range<P> r{ m + s, m + e };
				VF_REQ(r.size() == size_t(e - s) && r.empty() == (s == e) && (bool)r == (e > s) && r.first() == m + s);
				if (e > s)
					VF_REQ(r.last() == m + e - 1);
				int k = s;
				for (P p : r)
				{
					VF_REQ(p == m + k);
					k++;
				}
				VF_REQ(k == e);
				VF_REQ(r.end() - r.begin() == e - s && r.begin() - r.end() == s - e);
				auto it = r.begin();
				it += size_t(e - s);
				VF_REQ(it == r.end());
				it -= size_t(e - s);
				VF_REQ(it == r.begin());
				it += ptrdiff_t(e - s);
				it -= ptrdiff_t(e - s);
				VF_REQ(it == r.begin());
				for (int x = 0; x <= 8; x++)
					VF_REQ(r.contains(m + x) == (x >= s && x < e));
				for (int s2 = 0; s2 <= 8; s2++)
					for (int e2 = s2 + 1; e2 <= 8; e2++)
						if (s < e)
						{
							vf::trans();
							integral_range<P> q{ m + s2, m + e2 };
							VF_REQ(r.contains(q) == (s2 >= s && e2 <= e));
							VF_REQ(r.intersects(q) == (std::max(s, s2) < std::min(e, e2)));
							VF_REQ(r.adjacent(q) == (s == e2 || s2 == e));
							VF_REQ(r.union_with(q).s == m + std::min(s, s2) && r.union_with(q).e == m + std::max(e, e2));
						}
			}
	}
	void d09()
	{
		if (vf::group("int8"))
			ranges<int8_t>(true);
		if (vf::group("uint8"))
			ranges<uint8_t>(true);
		if (vf::group("int16"))
			ranges<int16_t>(false);
		if (vf::group("uint16"))
			ranges<uint16_t>(false);
		if (vf::group("int32"))
			ranges<int32_t>(false);
		if (vf::group("uint32"))
			ranges<uint32_t>(false);
		if (vf::group("int64"))
			ranges<int64_t>(false);
		if (vf::group("uint64"))
			ranges<uint64_t>(false);
		if (vf::group("pointers") && vf::mine(3))
		{
			ptr_ranges<int*>();
			ptr_ranges<odd*>();
			ptr_ranges<std::byte*>();
		}
		if (vf::group("end_only") && vf::mine(4))
		{
			for (int e = 0; e <= 127; e++)
			{
				vf::at(e);
				vf::state();
				vf::trans();
				integral_range<int8_t> a{ (int8_t)e };
				VF_REQ(a.s == 0 && a.e == e && a.size() == (size_t)e);
				integral_range<uint64_t> b{ (uint64_t)e };
				VF_REQ(b.s == 0 && b.e == (uint64_t)e && b.size() == (size_t)e);
				integral_range c{ e };
				static_assert(std::is_same_v<decltype(c)::value_type, int>);
				VF_REQ(c.s == 0 && c.e == e);
				integral_range d{ (short)1, (long)(e + 1) };
				static_assert(std::is_same_v<decltype(d)::value_type, long>);
				VF_REQ(d.s == 1 && d.e == e + 1);
			}
		}
	}
}
#include <algorithm>
int main(int argc, char** argv)
{
	vf::init(argc, argv);
	for (auto& a : vf::args)
	{
#if !defined(ONLY) || ONLY == 1
		if (a == "D01")
			d01();
#endif
#if !defined(ONLY) || ONLY == 3
		if (a == "D03")
			d03();
#endif
#if !defined(ONLY) || ONLY == 9
		if (a == "D09")
			d09();
#endif
	}
	return vf::finish();
}
