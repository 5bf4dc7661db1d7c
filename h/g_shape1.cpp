// Shapes as values (G06): construction, conversion, bit-casting, element access, comparison, zero/empty/degenerate tests,
// constants and streaming of planes, rays, segments, triangles, spheres, boxes and oriented boxes. A shape is described
// by the flat list of its scalars; every operation is compared with the same operation on that list.
#include "geo.h"
#include <cstring>
using muu::half;
using namespace muu;
template <class T> using M3 = muu::matrix<T, 3, 3>;

template <class T, size_t N> struct pod
{
	T v[N];
};
namespace muu
{
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 4>, plane<T>> = true;
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 4>, bounding_sphere<T>> = true;
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 6>, ray<T>> = true;
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 6>, line_segment<T>> = true;
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 6>, bounding_box<T>> = true;
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 9>, triangle<T>> = true;
	template <class T> inline constexpr bool allow_implicit_bit_cast<pod<T, 15>, oriented_bounding_box<T>> = true;
}

template <class T> static V<T> v(const T* p) { return V<T>{ p[0], p[1], p[2] }; }
template <class T> static void put(T* o, const V<T>& x) { o[0] = x.x, o[1] = x.y, o[2] = x.z; }
template <class T> static M3<T> m3(const T* p)
{
	M3<T> m;
	for (size_t c = 0; c < 3; c++)
		for (size_t r = 0; r < 3; r++) m(r, c) = p[c * 3 + r];
	return m;
}
// descriptors: N scalars, make from scalars, read back by member
template <class T> struct Plane
{
	using S							   = plane<T>;
	template <class U> using other	   = Plane<U>;
	static constexpr const char* name  = "plane";
	static constexpr size_t N		   = 4;
	static constexpr bool has_zero	   = true;
	static constexpr bool has_data	   = true;
	static S make(const T* p) { return S{ v(p), p[3] }; }
	static void read(const S& s, T* o) { put(o, s.normal), o[3] = s.d; }
};
template <class T> struct Sphere
{
	using S							   = bounding_sphere<T>;
	template <class U> using other	   = Sphere<U>;
	static constexpr const char* name  = "sphere";
	static constexpr size_t N		   = 4;
	static constexpr bool has_zero	   = true;
	static constexpr bool has_data	   = true;
	static S make(const T* p) { return S{ v(p), p[3] }; }
	static void read(const S& s, T* o) { put(o, s.center), o[3] = s.radius; }
};
template <class T> struct Ray
{
	using S							   = ray<T>;
	template <class U> using other	   = Ray<U>;
	static constexpr const char* name  = "ray";
	static constexpr size_t N		   = 6;
	static constexpr bool has_zero	   = false;
	static constexpr bool has_data	   = false;
	static S make(const T* p) { return S{ v(p), v(p + 3) }; }
	static void read(const S& s, T* o) { put(o, s.origin), put(o + 3, s.direction); }
};
template <class T> struct Seg
{
	using S							   = line_segment<T>;
	template <class U> using other	   = Seg<U>;
	static constexpr const char* name  = "segment";
	static constexpr size_t N		   = 6;
	static constexpr bool has_zero	   = true;
	static constexpr bool has_data	   = true;
	static S make(const T* p) { return S{ v(p), v(p + 3) }; }
	static void read(const S& s, T* o) { put(o, s.points[0]), put(o + 3, s.points[1]); }
};
template <class T> struct Box
{
	using S							   = bounding_box<T>;
	template <class U> using other	   = Box<U>;
	static constexpr const char* name  = "box";
	static constexpr size_t N		   = 6;
	static constexpr bool has_zero	   = true;
	static constexpr bool has_data	   = true;
	static S make(const T* p) { return S{ v(p), v(p + 3) }; }
	static void read(const S& s, T* o) { put(o, s.center), put(o + 3, s.extents); }
};
template <class T> struct Tri
{
	using S							   = triangle<T>;
	template <class U> using other	   = Tri<U>;
	static constexpr const char* name  = "triangle";
	static constexpr size_t N		   = 9;
	static constexpr bool has_zero	   = true;
	static constexpr bool has_data	   = true;
	static S make(const T* p) { return S{ v(p), v(p + 3), v(p + 6) }; }
	static void read(const S& s, T* o) { put(o, s.points[0]), put(o + 3, s.points[1]), put(o + 6, s.points[2]); }
};
template <class T> struct Obb
{
	using S							   = oriented_bounding_box<T>;
	template <class U> using other	   = Obb<U>;
	static constexpr const char* name  = "obb";
	static constexpr size_t N		   = 15;
	static constexpr bool has_zero	   = true;
	static constexpr bool has_data	   = true;
	static S make(const T* p) { return S{ v(p), v(p + 3), m3(p + 6) }; }
	static void read(const S& s, T* o)
	{
		put(o, s.center), put(o + 3, s.extents);
		for (size_t c = 0; c < 3; c++)
			for (size_t r = 0; r < 3; r++) o[6 + c * 3 + r] = s.axes(r, c);
	}
};

template <class D, class T> static bool is(const typename D::S& s, const T* want)
{
	T g[D::N];
	D::read(s, g);
	for (size_t i = 0; i < D::N; i++)
		if (!(g[i] == want[i])) return false;
	return true;
}
template <class Ch, class X> static std::vector<L> numbers(const X& x)
{
	std::basic_ostringstream<Ch> ss;
	ss << x;
	std::string s;
	for (auto c : ss.str()) s += char(c);
	std::vector<L> out;
	for (size_t i = 0; i < s.size();)
	{
		if ((s[i] >= '0' && s[i] <= '9') || (s[i] == '-' && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '9'))
		{
			char* en;
			out.push_back(strtold(s.c_str() + i, &en));
			i = size_t(en - s.c_str());
		}
		else i++;
	}
	return out;
}
// every tuple of `n` digits in [0, k)
template <class F> static void tuples(size_t n, size_t k, F&& f)
{
	std::vector<uint8_t> d(n);
	for (;;)
	{
		if (mine_()) f(d);
		size_t i = 0;
		while (i < n && ++d[i] == k) d[i++] = 0;
		if (i == n) return;
	}
}
static uint64_t key(const std::vector<uint8_t>& d, size_t k)
{
	uint64_t r = 0;
	for (size_t i = d.size(); i--;) r = r * k + d[i];
	return r;
}

template <class D, class T> struct common
{
	using S					  = typename D::S;
	static constexpr size_t N = D::N;
	static constexpr bool big = N > 9;

	// member ctor, data(), bit-cast, copies, conversion, equality, streaming over every tuple of three values
	static void values()
	{
		static_assert(std::is_trivially_copyable_v<S> && sizeof(S) == sizeof(T) * N);
		const T val[] = { T(-2.5), T(0.75), T(3) };
		tuples(N, big ? 2 : 3, [&](const std::vector<uint8_t>& d) {
			vf::state(1), vf::trans(8);
			vf::at(key(d, 3));
			T x[N];
			for (size_t i = 0; i < N; i++) x[i] = val[(d[i] + i) % 3];
			S s = D::make(x);
			VF_CHECK((is<D, T>(s, x)), "members after construction");
			const S c = s;
			S a;
			a = c;
			VF_CHECK((is<D, T>(c, x) && is<D, T>(a, x)), "members after a copy");
			VF_CHECK(s == c && !(s != c), "equality of a copy");
			if constexpr (D::has_data)
			{
				VF_CHECK(s.data() == reinterpret_cast<T*>(&s) && c.data() == reinterpret_cast<const T*>(&c), "data()");
				bool ok = true;
				for (size_t i = 0; i < N; i++) ok &= c.data()[i] == x[i];
				VF_CHECK(ok, "scalars through data()");
			}
			pod<T, N> p;
			for (size_t i = 0; i < N; i++) p.v[i] = x[i];
			const S bc = p;
			VF_CHECK((is<D, T>(bc, x)), "members after a bit-cast");
			// one scalar differing
			for (size_t i = 0; i < N; i++)
			{
				T y[N];
				std::copy(x, x + N, y);
				y[i]	  = val[(d[i] + i + 1) % 3];
				const S o = D::make(y);
				VF_CHECK(!(s == o) && s != o && !(o == s) && o != s, "shapes differing in scalar %zu compare equal", i);
				y[i] = T(std::numeric_limits<float>::quiet_NaN());
				const S n = D::make(y);
				VF_CHECK(!(s == n) && s != n && !(n == n), "a NaN in scalar %zu compares equal", i);
			}
			conv<float>(s, x), conv<double>(s, x), conv<long double>(s, x), conv<half>(s, x);
			std::vector<L> want;
			for (size_t i = 0; i < N; i++) want.push_back(L(x[i]));
			if constexpr (!big)
				if (key(d, 3) % 7 == 0 || N <= 6)
				VF_CHECK(numbers<char>(s) == want && numbers<wchar_t>(s) == want, "streamed scalars");
		});
	}
	template <class U> static void conv(const S& s, const T* x)
	{
		using D2 = typename D::template other<U>;
		using S2 = typename D2::S;
		U want[N];
		for (size_t i = 0; i < N; i++) want[i] = U(x[i]);
		const S2 r{ s };
		VF_CHECK((is<D2, U>(r, want)), "converted scalars");
		VF_CHECK(s == r && r == s && !(s != r), "mixed equality");
		VF_CHECK(S::approx_equal(s, r) && s.approx_equal(r) && muu::approx_equal(s, r) && muu::approx_equal(r, s), "mixed approx_equal");
		U off[N];
		std::copy(want, want + N, off);
		for (size_t i = 0; i < N; i++)
		{
			off[i]	   = U(L(want[i]) + 0.5L);
			const S2 q = D2::make(off);
			off[i]	   = want[i];
			VF_CHECK(s != q && !(s == q) && !(q == s), "mixed inequality in scalar %zu", i);
			VF_CHECK(!S::approx_equal(s, q) && !s.approx_equal(q) && !muu::approx_equal(q, s), "mixed approx_equal in scalar %zu", i);
		}
	}
	// zero() and approx_zero()
	static void zeros()
	{
		if constexpr (D::has_zero)
		{
			const T z[] = { T(0), T(1), -T(0) };
			tuples(N, big ? 2 : 3, [&](const std::vector<uint8_t>& d) {
				vf::state(1), vf::trans(2);
				vf::at(key(d, 3));
				T x[N];
				bool all = true;
				for (size_t i = 0; i < N; i++) x[i] = z[d[i]], all &= d[i] != 1;
				const S s = D::make(x);
				VF_CHECK(s.zero() == all && S::zero(s) == all, "zero() is not %d", all);
			});
			for (const T e : { T(muu::default_epsilon<T>), T(0.25) })
			{
				const T q[] = { T(0), T(e * T(0.5)), T(e * T(2)), T(-e * T(0.5)), T(-e * T(2)) };
				const size_t k = big ? 2 : N == 9 ? 3 : N == 6 ? 4 : 5;
				for (size_t hi = 0; hi < 2; hi++) // big shapes: also with the large values
					tuples(N, k, [&](const std::vector<uint8_t>& d) {
						vf::state(1), vf::trans(6);
						vf::at(key(d, 5), e == T(0.25), hi);
						T x[N];
						bool all = true;
						for (size_t i = 0; i < N; i++)
						{
							const size_t j = hi && d[i] ? (d[i] + 1) % 4 + 1 : d[i];
							x[i]		   = q[j];
							all &= j == 0 || j == 1 || j == 3;
						}
						const S s = D::make(x);
						VF_CHECK(S::approx_zero(s, e) == all && s.approx_zero(e) == all && muu::approx_zero(s, e) == all, "approx_zero is not %d", all);
						if (e != T(0.25))
							VF_CHECK(S::approx_zero(s) == all && s.approx_zero() == all && muu::approx_zero(s) == all, "default approx_zero is not %d", all);
					});
			}
		}
	}
	static void infs()
	{
		const L in	= std::numeric_limits<L>::infinity();
		const T q[] = { T(1), T(in), T(std::numeric_limits<float>::quiet_NaN()), T(-in) };
		for (size_t sp = 1; sp < (big ? 4u : 2u); sp++)
			tuples(N, big ? 2 : N == 9 ? 3 : 4, [&](const std::vector<uint8_t>& d) {
				vf::state(1), vf::trans(3);
				vf::at(key(d, 4), sp);
				T x[N];
				bool any = false;
				for (size_t i = 0; i < N; i++) x[i] = q[d[i] ? (d[i] + sp - 1) : 0], any |= d[i] != 0;
				const S s = D::make(x);
				VF_CHECK(s.infinity_or_nan() == any && S::infinity_or_nan(s) == any && muu::infinity_or_nan(s) == any, "infinity_or_nan() is not %d", any);
			});
	}
	static void approx()
	{
		const T base[] = { T(0.5), T(-0.25), T(1) };
		for (const T e : { T(0.0625), T(0.5) })
			tuples(N, big ? 2 : N == 9 ? 3 : 4, [&](const std::vector<uint8_t>& d) {
				vf::state(1), vf::trans(6);
				vf::at(key(d, 4), e == T(0.5));
				const T del[] = { T(0), T(e * T(2)), T(e * T(0.5)), T(-e * T(2)) };
				T x[N], y[N];
				bool all = true;
				for (size_t i = 0; i < N; i++)
				{
					const size_t j = big && (i & 1) && d[i] ? 3 : d[i];
					x[i] = base[i % 3], y[i] = T(x[i] + del[j]);
					all &= j == 0 || j == 2;
				}
				const S a = D::make(x), b = D::make(y);
				VF_CHECK(S::approx_equal(a, b, e) == all && a.approx_equal(b, e) == all && muu::approx_equal(a, b, e) == all, "approx_equal is not %d", all);
				VF_CHECK(S::approx_equal(b, a, e) == all && b.approx_equal(a, e) == all && muu::approx_equal(b, a, e) == all, "approx_equal reversed is not %d", all);
			});
	}
	static void all()
	{
		const std::string n = D::name;
		if (vf::group((n + ".values").c_str())) values();
		if (vf::group((n + ".zero").c_str())) zeros();
		if (vf::group((n + ".infinity_or_nan").c_str())) infs();
		if (vf::group((n + ".approx_equal").c_str())) approx();
	}
};

// radius/extents queries
template <class T> static void empties()
{
	if (!vf::group("empty")) return;
	const T e = muu::default_epsilon<T>;
	const T q[] = { T(0), T(e * T(0.5)), T(e * T(2)), T(1), T(-1) };
	tuples(6, 5, [&](const std::vector<uint8_t>& d) {
		vf::state(1), vf::trans(4);
		vf::at(key(d, 5));
		const T O = T(0), I = T(1);
		T x[15] = { q[d[3]], q[d[4]], q[d[5]], q[d[0]], q[d[1]], q[d[2]], O, I, O, T(-1), O, O, O, O, I };
		const bool zero = !d[0] && !d[1] && !d[2], pos = d[0] && d[1] && d[2] && d[0] < 4 && d[1] < 4 && d[2] < 4;
		const bool tiny = d[0] < 2 && d[1] < 2 && d[2] < 2;
		const bool big	= d[0] > 1 && d[1] > 1 && d[2] > 1;
		const auto b = Box<T>::make(x);
		const auto o = Obb<T>::make(x);
		using B		 = bounding_box<T>;
		using OB	 = oriented_bounding_box<T>;
		if (zero)
		{
			VF_CHECK(b.empty() && B::empty(b) && o.empty() && OB::empty(o), "a box without extents is not empty()");
		}
		if (pos)
		{
			VF_CHECK(!b.empty() && !B::empty(b) && !o.empty() && !OB::empty(o), "a box with volume is empty()");
		}
		if (tiny)
		{
			VF_CHECK(b.approx_empty() && B::approx_empty(b) && o.approx_empty() && OB::approx_empty(o), "approx_empty");
			VF_CHECK(b.approx_empty(e) && B::approx_empty(b, e) && o.approx_empty(e) && OB::approx_empty(o, e), "approx_empty(epsilon)");
		}
		if (big)
		{
			VF_CHECK(!b.approx_empty() && !B::approx_empty(b) && !o.approx_empty() && !OB::approx_empty(o), "not approx_empty");
			VF_CHECK(!b.approx_empty(e) && !B::approx_empty(b, e) && !o.approx_empty(e) && !OB::approx_empty(o, e), "not approx_empty(epsilon)");
		}
		const bool deg = !pos;
		VF_CHECK(b.degenerate() == deg && B::degenerate(b) == deg && muu::degenerate(b) == deg, "box: degenerate() is not %d", deg);
		VF_CHECK(o.degenerate() == deg && OB::degenerate(o) == deg && muu::degenerate(o) == deg, "oriented box: degenerate() is not %d", deg);
		const bounding_sphere<T> s{ v(x), x[3] };
		using SP = bounding_sphere<T>;
		VF_CHECK(s.empty() == !d[0] && SP::empty(s) == !d[0], "sphere: empty()");
		VF_CHECK(s.approx_empty() == (d[0] < 2) && SP::approx_empty(s) == (d[0] < 2) && s.approx_empty(e) == (d[0] < 2) && SP::approx_empty(s, e) == (d[0] < 2), "sphere: approx_empty()");
		VF_CHECK(s.approx_empty(T(8)) && SP::approx_empty(s, T(8)), "sphere: approx_empty(8)");
		const bool sd = !d[0] || d[0] == 4;
		VF_CHECK(s.degenerate() == sd && SP::degenerate(s) == sd && muu::degenerate(s) == sd, "sphere: degenerate() is not %d", sd);
		const line_segment<T> g{ v(x), v(x + 3) };
		const bool gd = d[0] == d[3] && d[1] == d[4] && d[2] == d[5];
		using SG = line_segment<T>;
		VF_CHECK(g.degenerate() == gd && SG::degenerate(g) == gd && muu::degenerate(g) == gd, "segment: degenerate() is not %d", gd);
	});
}

// every way to construct a shape
template <class T> static void ctors()
{
	if (!vf::group("constructors")) return;
	const T val[] = { T(-2), T(0.5), T(3) };
	tuples(6, 3, [&](const std::vector<uint8_t>& d) {
		vf::state(1), vf::trans(30);
		vf::at(key(d, 3));
		T x[15];
		for (size_t i = 0; i < 6; i++) x[i] = val[d[i]];
		for (size_t i = 6; i < 15; i++) x[i] = T(L(i) * 0.25L);
		const V<T> a = v(x), b = v(x + 3), c = v(x + 6);
		{
			using S = bounding_sphere<T>;
			VF_CHECK((is<Sphere<T>, T>(S{ x[0], x[1], x[2], x[3] }, x)), "sphere from scalars");
			const T O = T(0);
			const T w[] = { O, O, O, x[3] };
			VF_CHECK((is<Sphere<T>, T>(S{ x[3] }, w)), "sphere from a radius");
			VF_CHECK((is<Sphere<T>, T>(bounding_sphere{ a, x[3] }, x) && is<Sphere<T>, T>(bounding_sphere{ x[0], x[1], x[2], x[3] }, x) && is<Sphere<T>, T>(bounding_sphere{ x[3] }, w)), "sphere by deduction");
		}
		{
			using S = bounding_box<T>;
			const T e3[] = { x[0], x[1], x[2], x[3], x[3], x[3] }, O = T(0), oe[] = { O, O, O, x[3], x[4], x[5] }, o3[] = { O, O, O, x[3], x[3], x[3] };
			VF_CHECK((is<Box<T>, T>(S{ a, x[3], x[4], x[5] }, x) && is<Box<T>, T>(S{ x[0], x[1], x[2], b }, x) && is<Box<T>, T>(S{ x[0], x[1], x[2], x[3], x[4], x[5] }, x)), "box constructors");
			VF_CHECK((is<Box<T>, T>(S{ a, x[3] }, e3) && is<Box<T>, T>(S{ b }, oe) && is<Box<T>, T>(S{ x[3] }, o3)), "box constructors with defaults");
			VF_CHECK((is<Box<T>, T>(bounding_box{ a, b }, x) && is<Box<T>, T>(bounding_box{ a, x[3], x[4], x[5] }, x) && is<Box<T>, T>(bounding_box{ x[0], x[1], x[2], b }, x)
					  && is<Box<T>, T>(bounding_box{ x[0], x[1], x[2], x[3], x[4], x[5] }, x) && is<Box<T>, T>(bounding_box{ a, x[3] }, e3) && is<Box<T>, T>(bounding_box{ b }, oe) && is<Box<T>, T>(bounding_box{ x[3] }, o3)), "box by deduction");
		}
		{
			using S		  = oriented_bounding_box<T>;
			const M3<T> m = m3(x + 6);
			const auto with = [&](std::initializer_list<T> h, bool id) {
				std::array<T, 15> r;
				std::copy(h.begin(), h.end(), r.begin());
				for (size_t i = 6; i < 15; i++) r[i] = id ? T(i == 6 || i == 10 || i == 14) : x[i];
				return r;
			};
			const auto full	 = with({ x[0], x[1], x[2], x[3], x[4], x[5] }, false), fid = with({ x[0], x[1], x[2], x[3], x[4], x[5] }, true);
			const auto e3	 = with({ x[0], x[1], x[2], x[3], x[3], x[3] }, false), e3id = with({ x[0], x[1], x[2], x[3], x[3], x[3] }, true);
			const auto oe	 = with({ T(0), T(0), T(0), x[3], x[4], x[5] }, false), oeid = with({ T(0), T(0), T(0), x[3], x[4], x[5] }, true);
			const auto o3	 = with({ T(0), T(0), T(0), x[3], x[3], x[3] }, false), o3id = with({ T(0), T(0), T(0), x[3], x[3], x[3] }, true);
			const auto eq	 = [](const S& s, const std::array<T, 15>& w) { return is<Obb<T>, T>(s, w.data()); };
			VF_CHECK(eq(S(a, b), fid) && eq(S(a, b, m), full), "oriented box from center and extents");
			VF_CHECK(eq(S(a, x[3], x[4], x[5]), fid) && eq(S(a, x[3], x[4], x[5], m), full), "oriented box from center and scalars");
			VF_CHECK(eq(S(a, x[3]), e3id) && eq(S(a, x[3], m), e3), "oriented box from center and one extent");
			VF_CHECK(eq(S(b), oeid) && eq(S(b, m), oe), "oriented box from extents");
			VF_CHECK(eq(S(x[3]), o3id) && eq(S(x[3], m), o3), "oriented box from one extent");
			VF_CHECK(eq(S(x[0], x[1], x[2], b), fid) && eq(S(x[0], x[1], x[2], b, m), full), "oriented box from center scalars");
			VF_CHECK(eq(S(x[0], x[1], x[2], x[3], x[4], x[5]), fid) && eq(S(x[0], x[1], x[2], x[3], x[4], x[5], m), full), "oriented box from scalars");
			VF_CHECK(eq(oriented_bounding_box{ a, b }, fid) && eq(oriented_bounding_box{ b }, oeid) && eq(oriented_bounding_box{ x[3] }, o3id) && eq(oriented_bounding_box{ a, x[3] }, e3id), "oriented box by deduction");
		}
		{
			using S = ray<T>;
			VF_CHECK((is<Ray<T>, T>(S{ x[0], x[1], x[2], x[3], x[4], x[5] }, x) && is<Ray<T>, T>(ray{ a, b }, x) && is<Ray<T>, T>(ray{ x[0], x[1], x[2], x[3], x[4], x[5] }, x)), "ray constructors");
		}
		{
			using S			= line_segment<T>;
			const V<T> p[2] = { a, b };
			VF_CHECK((is<Seg<T>, T>(S{ x[0], x[1], x[2], x[3], x[4], x[5] }, x) && is<Seg<T>, T>(S{ p }, x) && is<Seg<T>, T>(line_segment{ a, b }, x) && is<Seg<T>, T>(line_segment{ p }, x)), "segment constructors");
			S s{ a, b };
			const S& k = s;
			VF_CHECK(&s[0] == &s.points[0] && &s[1] == &s.points[1] && &k[0] == &s.points[0] && &k[1] == &s.points[1], "segment operator[]");
			VF_CHECK((&s.template get<0>() == &s.points[0] && &s.template get<1>() == &s.points[1] && &k.template get<0>() == &s.points[0] && &k.template get<1>() == &s.points[1]), "segment get<>");
			VF_CHECK(s.begin() == s.points && s.end() == s.points + 2 && k.begin() == s.points && k.end() == s.points + 2 && k.cbegin() == s.points && k.cend() == s.points + 2, "segment iterators");
			auto [q, r] = k;
			VF_CHECK((q == a && r == b), "segment structured binding");
			static_assert(std::tuple_size_v<S> == 2 && std::is_same_v<std::tuple_element_t<0, S>, V<T>> && std::is_same_v<std::tuple_element_t<1, S>, V<T>>);
		}
		{
			using S			= triangle<T>;
			const V<T> p[3] = { a, b, c };
			VF_CHECK((is<Tri<T>, T>(S{ x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8] }, x) && is<Tri<T>, T>(S{ p }, x) && is<Tri<T>, T>(triangle{ a, b, c }, x) && is<Tri<T>, T>(triangle{ p }, x)), "triangle constructors");
			S s{ a, b, c };
			const S& k = s;
			VF_CHECK(&s[0] == &s.points[0] && &s[1] == &s.points[1] && &s[2] == &s.points[2] && &k[0] == &s.points[0] && &k[1] == &s.points[1] && &k[2] == &s.points[2], "triangle operator[]");
			VF_CHECK((&s.template get<0>() == &s.points[0] && &s.template get<1>() == &s.points[1] && &s.template get<2>() == &s.points[2] && &k.template get<0>() == &s.points[0]
					  && &k.template get<1>() == &s.points[1] && &k.template get<2>() == &s.points[2]), "triangle get<>");
			VF_CHECK(s.begin() == s.points && s.end() == s.points + 3 && k.begin() == s.points && k.end() == s.points + 3 && k.cbegin() == s.points && k.cend() == s.points + 3, "triangle iterators");
			auto [q, r, t] = k;
			VF_CHECK((q == a && r == b && t == c), "triangle structured binding");
			static_assert(std::tuple_size_v<S> == 3 && std::is_same_v<std::tuple_element_t<2, S>, V<T>>);
		}
		{ // planes through a point; normals of length 1
			using S = plane<T>;
			VF_CHECK((is<Plane<T>, T>(plane{ a, x[3] }, x)), "plane by deduction");
			const P n[] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0.6L, 0.8L, 0 }, { 0, -0.8L, 0.6L } };
			for (const P& k : n)
			{
				const S s{ a, v3<T>(k) };
				VF_CHECK(near(pt<T>(s.normal), k, ulp<T>()), "plane from a point and a direction: normal");
				VF_CHECK(near(L(s.d), -dot(k, pt<T>(a)), 32 * ulp<T>()), "plane from a point and a direction: d is %Lg, not %Lg", L(s.d), -dot(k, pt<T>(a)));
			}
			if (!(d[0] == d[3] && d[1] == d[4] && d[2] == d[5]))
			{
				const P A = pt<T>(a), B = pt<T>(b), C{ 7, -6, 5 };
				const P cr = cross(B - A, C - A);
				if (len(cr) > 0.5)
				{
					const V<T> vc = v3<T>(C);
					const S s1	  = S::from_triangle(a, b, vc), s2{ a, b, vc }, s3{ triangle<T>{ a, b, vc } }, s4 = S::from_triangle(triangle<T>{ a, b, vc }), s5{ triangle<T>{ a, b, vc }.plane() };
					const L tol = 512 * ulp<T>() * (1 + 30 / len(cr));
					for (const S* s : { &s1, &s2, &s3, &s4, &s5 })
					{
						VF_CHECK(near(pt<T>(s->normal), unit(cr), tol), "plane of a triangle: normal");
						VF_CHECK(near(L(s->d), -dot(unit(cr), A), tol * 16), "plane of a triangle: d is %Lg, not %Lg", L(s->d), -dot(unit(cr), A));
					}
				}
			}
		}
	});
}
template <class T> static void consts()
{
	if (!vf::group("constants") || !mine_()) return;
	vf::state(1), vf::trans(12);
	const T z[15] = {};
	VF_CHECK((is<Plane<T>, T>(constants<plane<T>>::zero, z) && is<Sphere<T>, T>(constants<bounding_sphere<T>>::zero, z) && is<Seg<T>, T>(constants<line_segment<T>>::zero, z)
			  && is<Box<T>, T>(constants<bounding_box<T>>::zero, z) && is<Tri<T>, T>(constants<triangle<T>>::zero, z)), "zero constants");
	VF_CHECK((is<Obb<T>, T>(constants<oriented_bounding_box<T>>::zero, z)), "zero oriented box");
	const T O = T(0), I = T(1), xy[] = { O, O, I, O }, xz[] = { O, I, O, O }, yz[] = { I, O, O, O }, us[] = { O, O, O, I };
	VF_CHECK((is<Plane<T>, T>(constants<plane<T>>::xy, xy) && is<Plane<T>, T>(constants<plane<T>>::xz, xz) && is<Plane<T>, T>(constants<plane<T>>::yz, yz)), "axis planes");
	VF_CHECK((is<Sphere<T>, T>(constants<bounding_sphere<T>>::unit, us)), "unit sphere");
	const T h = T(0.5), ub[] = { O, O, O, h, h, h, I, O, O, O, I, O, O, O, I };
	VF_CHECK((is<Box<T>, T>(constants<bounding_box<T>>::unit, ub) && is<Obb<T>, T>(constants<oriented_bounding_box<T>>::unit, ub)), "unit boxes");
#ifndef NO_CT
	if constexpr (sizeof(T) != 2)
	{
		static_assert(constants<oriented_bounding_box<T>>::zero.zero() && constants<plane<T>>::zero.zero() && !constants<plane<T>>::xy.zero());
		static_assert(plane<T>{ V<T>{ 1, 2, 3 }, V<T>{ 0, 1, 0 } }.d == T(-2));
		static_assert(line_segment<T>{ 1, 2, 3, 4, 5, 6 }[1].y == T(5) && triangle<T>{ 1, 2, 3, 4, 5, 6, 7, 8, 9 }.template get<2>().x == T(7));
		static_assert(bounding_box<T>{ T(2) } == bounding_box<T>{ V<T>{ T(2) } } && bounding_sphere<T>{ T(2) }.diameter() == T(4));
	}
#endif
}

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	using T =
#if GRP == 1
		float;
#elif GRP == 2
		double;
#elif GRP == 3
		half;
#else
		long double;
#endif
	common<Plane<T>, T>::all();
	common<Sphere<T>, T>::all();
	common<Ray<T>, T>::all();
	common<Seg<T>, T>::all();
	common<Box<T>, T>::all();
	common<Tri<T>, T>::all();
	common<Obb<T>, T>::all();
	empties<T>();
	ctors<T>();
	consts<T>();
	return vf::finish();
}
