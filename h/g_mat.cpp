// G03: matrices of every shape with entries from small sets, against plain row-major arrays and exact rational algebra.
#include "muu/half.h"
#include "muu/matrix.h"
#include "vf.h"
#include <cmath>
#include <sstream>
#include <array>
#include <algorithm>
using namespace muu;
using L = long double;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
template <class T> constexpr bool fl = muu::is_floating_point<T>;
template <class T> constexpr L ulp()
{
	if constexpr (!fl<T>) return 0;
	else if constexpr (sizeof(T) == 2) return 0x1p-10L;
	else return L(std::numeric_limits<T>::epsilon());
}
static bool near(L a, L b, L tol) { return a == b || std::fabs(a - b) <= tol; }
template <size_t R, size_t C> struct A2
{
	L a[R][C] = {};
	L* operator[](size_t i) { return a[i]; }
	const L* operator[](size_t i) const { return a[i]; }
};
template <class M> static M make(const A2<M::rows, M::columns>& a)
{
	M m;
	for (size_t r = 0; r < M::rows; r++)
		for (size_t c = 0; c < M::columns; c++) m(r, c) = static_cast<typename M::scalar_type>(a[r][c]);
	return m;
}
template <class T, size_t R, size_t C> static std::string str(const matrix<T, R, C>& m)
{
	std::string s = "{";
	for (size_t r = 0; r < R; r++)
	{
		for (size_t c = 0; c < C; c++) s += (c ? "," : r ? "; " : "") + std::to_string((double)L(m(r, c)));
	}
	return s + "}";
}
template <class T, size_t R, size_t C, class F> static void each(const matrix<T, R, C>& got, const char* what, L tol, F&& want)
{
	vf::trans(1);
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
		{
			const L w = want(r, c);
			VF_CHECK(near(L(got(r, c)), w, tol * ulp<T>() * std::max(1.0L, std::fabs(w))), "%s: %s, entry (%zu,%zu) should be %Lg", what, str(got).c_str(), r, c, w);
		}
}
template <class T, size_t D, class F> static void eachv(const vector<T, D>& got, const char* what, L tol, F&& want)
{
	vf::trans(1);
	for (size_t i = 0; i < D; i++)
	{
		const L w = want(i);
		VF_CHECK(near(L(got[i]), w, tol * ulp<T>() * std::max(1.0L, std::fabs(w))), "%s: component %zu is %Lg, should be %Lg", what, i, L(got[i]), w);
	}
}
static uint64_t ipow(uint64_t b, uint64_t e) { uint64_t r = 1; while (e--) r *= b; return r; }
// the k-th matrix with entries from v
template <size_t R, size_t C> static A2<R, C> nth(uint64_t k, const std::vector<int>& v)
{
	A2<R, C> a;
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++) a[r][c] = v[size_t(k % v.size())], k /= v.size();
	return a;
}
// test set for one shape: every unit matrix, broadcasts, and matrices of distinct small primes
template <size_t R, size_t C> static std::vector<A2<R, C>> basis(bool sg)
{
	std::vector<A2<R, C>> out;
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
		{
			A2<R, C> a;
			a[r][c] = 3;
			out.push_back(a);
		}
	static const int p[] = { 2, 3, 5, 7, 1, 4, 6, 2, 5, 3, 1, 7, 2, 6, 4, 5, 3, 1, 2, 7, 4, 3, 6, 5, 1 };
	for (int o = 0; o < 3; o++)
	{
		A2<R, C> a;
		for (size_t r = 0; r < R; r++)
			for (size_t c = 0; c < C; c++)
			{
				const size_t i = (r * C + c + size_t(o) * 7) % 25;
				a[r][c] = sg && (i * 5 + size_t(o)) % 3 == 0 ? -p[i] : p[i];
			}
		out.push_back(a);
	}
	return out;
}
template <class T, size_t R, size_t C> static void unary(const A2<R, C>& a)
{
	using M = matrix<T, R, C>;
	const M m = make<M>(a);
	vf::state(1);
	bool zero = true;
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
		{
			zero = zero && a[r][c] == 0;
			VF_CHECK(L(m(r, c)) == a[r][c] && &m(r, c) == m.data() + c * R + r, "element access (%zu,%zu)", r, c);
		}
	VF_CHECK(m.zero() == zero && M::zero(m) == zero, "zero");
	VF_CHECK(!m.infinity_or_nan() && !infinity_or_nan(m), "infinity_or_nan");
	if constexpr (fl<T>) { VF_CHECK(m.approx_zero() == zero && muu::approx_zero(m) == zero && M::approx_zero(m, T(100)), "approx_zero"); }
	each(+m, "+m", 0, [&](size_t r, size_t c) { return a[r][c]; });
	if constexpr (muu::is_signed<T>) each(-m, "-m", 0, [&](size_t r, size_t c) { return -a[r][c]; });
	const auto tr = [&](size_t r, size_t c) { return a[c][r]; };
	each(M::transpose(m), "transpose", 0, tr);
	each(muu::transpose(m), "muu::transpose", 0, tr);
	if constexpr (R == C)
	{
		M x = m;
		M& y = x.transpose();
		VF_CHECK(&x == &y, "transpose returns itself");
		each(x, "in-place transpose", 0, tr);
	}
	VF_CHECK(muu::transpose(muu::transpose(m)) == m, "transpose twice");
	for (int s = 1; s <= 4; s++)
	{
		const T sc = static_cast<T>(s);
		const auto mul = [&](size_t r, size_t c) { return a[r][c] * s; };
		const auto dv = [&](size_t r, size_t c) { return fl<T> ? a[r][c] / s : std::trunc(a[r][c] / s); };
		each(m * sc, "m * s", 0, mul);
		each(sc * m, "s * m", 0, mul);
		{ M x = m; M& y = (x *= sc); VF_CHECK(&x == &y, "*= returns itself"); each(x, "m *= s", 0, mul); }
		each(m / sc, "m / s", 2, dv);
		{ M x = m; M& y = (x /= sc); VF_CHECK(&x == &y, "/= returns itself"); each(x, "m /= s", 2, dv); }
	}
	{ M x = m; x += x; each(x, "m += m", 0, [&](size_t r, size_t c) { return 2 * a[r][c]; }); }
	{ M x = m; x -= x; each(x, "m -= m", 0, [&](size_t, size_t) { return 0.0L; }); }
	{ M x = m; x *= x(0, 0); each(x, "m *= m(0,0)", 0, [&](size_t r, size_t c) { return a[r][c] * a[0][0]; }); }
	// identity
	const auto I = constants<matrix<T, C, C>>::identity;
	const auto J = constants<matrix<T, R, R>>::identity;
	each(m * I, "m * identity", 0, [&](size_t r, size_t c) { return a[r][c]; });
	each(J * m, "identity * m", 0, [&](size_t r, size_t c) { return a[r][c]; });
	each(constants<M>::identity, "identity", 0, [](size_t r, size_t c) { return L(r == c); });
	// printing: the entries in row-major order
	std::ostringstream os;
	os << m;
	std::string t = os.str();
	for (char& ch : t) if (ch == '{' || ch == '}' || ch == ',') ch = ' ';
	std::istringstream is(t);
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
		{
			L v = NAN;
			is >> v;
			VF_CHECK(v == a[r][c], "printed as %s", os.str().c_str());
		}
	std::string junk;
	VF_CHECK(!(is >> junk), "printed as %s", os.str().c_str());
	// resizing conversions
	const matrix<T, R + 1, C + 1> big{ m };
	each(big, "enlarged", 0, [&](size_t r, size_t c) { return r < R && c < C ? a[r][c] : 0; });
	if constexpr (R > 1 && C > 1)
	{
		const matrix<T, R - 1, C - 1> sm{ m };
		each(sm, "truncated", 0, [&](size_t r, size_t c) { return a[r][c]; });
	}
	const matrix<double, R, C> d{ m };
	each(d, "converted", 0, [&](size_t r, size_t c) { return a[r][c]; });
	VF_CHECK(d == m && m == d && !(d != m), "equality across scalar types");
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
		{
			M x = m;
			x(r, c) = static_cast<T>(x(r, c) + static_cast<T>(1));
			VF_CHECK(x != m && !(x == m) && d != x, "inequality in entry (%zu,%zu)", r, c);
			VF_CHECK(!muu::approx_equal(x, d) && muu::approx_equal(m, d) && muu::approx_equal(x, d, 1.5), "approximate equality in entry (%zu,%zu)", r, c);
			if constexpr (fl<T>)
			{
				VF_CHECK(!muu::approx_equal(x, m) && muu::approx_equal(m, m) && x.approx_equal(m, T(1.5)) && !x.approx_equal(m, T(0.75)), "approximate equality in entry (%zu,%zu)", r, c);
				x(r, c) = constants<T>::nan;
				VF_CHECK(x.infinity_or_nan() && infinity_or_nan(x) && x != x, "NaN in entry (%zu,%zu)", r, c);
				x(r, c) = -constants<T>::infinity;
				VF_CHECK(x.infinity_or_nan() && M::infinity_or_nan(x), "infinity in entry (%zu,%zu)", r, c);
				x = M{ T{} };
				x(r, c) = static_cast<T>(1);
				VF_CHECK(!x.zero() && !x.approx_zero() && x.approx_zero(T(2)), "zero with one non-zero entry");
			}
		}
}
template <class T, size_t R, size_t K, size_t C> static void product(const A2<R, K>& a, const A2<K, C>& b)
{
	vf::state(1);
	const auto p = make<matrix<T, R, K>>(a) * make<matrix<T, K, C>>(b);
	static_assert(std::is_same_v<std::decay_t<decltype(p)>, matrix<T, R, C>>);
	each(p, "product", 0, [&](size_t r, size_t c) {
		L s = 0;
		for (size_t k = 0; k < K; k++) s += a[r][k] * b[k][c];
		return s;
	});
	if constexpr (R == K && K == C)
	{
		auto m = make<matrix<T, R, R>>(a);
		auto& n = (m *= make<matrix<T, R, R>>(b));
		VF_CHECK(&m == &n && m == p, "*=");
		m = make<matrix<T, R, R>>(a);
		const auto sq = m * m;
		m *= m;
		VF_CHECK(m == sq, "m *= m");
	}
	if constexpr (C == 1)
	{
		vector<T, K> v;
		for (size_t i = 0; i < K; i++) v[i] = static_cast<T>(b[i][0]);
		const vector<T, R> q = make<matrix<T, R, K>>(a) * v;
		eachv(q, "matrix * column", 0, [&](size_t r) { return L(p(r, 0)); });
	}
	if constexpr (R == 1)
	{
		vector<T, K> v;
		for (size_t i = 0; i < K; i++) v[i] = static_cast<T>(a[0][i]);
		const vector<T, C> q = v * make<matrix<T, K, C>>(b);
		eachv(q, "row * matrix", 0, [&](size_t c) { return L(p(0, c)); });
	}
}
template <class T, size_t R, size_t C> static void sums(const A2<R, C>& a, const A2<R, C>& b)
{
	using M = matrix<T, R, C>;
	vf::state(1);
	const M x = make<M>(a), y = make<M>(b);
	bool eq = true;
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++) eq = eq && a[r][c] == b[r][c];
	VF_CHECK((x == y) == eq && (x != y) == !eq, "equality");
	const auto add = [&](size_t r, size_t c) { return a[r][c] + b[r][c]; };
	each(x + y, "m + n", 0, add);
	{ M z = x; M& w = (z += y); VF_CHECK(&z == &w, "+= returns itself"); each(z, "m += n", 0, add); }
	if constexpr (muu::is_signed<T>)
	{
		const auto sub = [&](size_t r, size_t c) { return a[r][c] - b[r][c]; };
		each(x - y, "m - n", 0, sub);
		{ M z = x; M& w = (z -= y); VF_CHECK(&z == &w, "-= returns itself"); each(z, "m -= n", 0, sub); }
	}
}
template <class T, size_t R, size_t C> static void shape()
{
	const auto set = basis<R, C>(muu::is_signed<T>);
	for (size_t i = 0; i < set.size(); i++)
	{
		vf::at(int64_t(R), int64_t(C), int64_t(i), int64_t(sizeof(T)));
		unary<T, R, C>(set[i]);
		for (const auto& b : set) sums<T, R, C>(set[i], b);
	}
}
template <class T, size_t R, size_t K, size_t C> static void products()
{
	const auto x = basis<R, K>(muu::is_signed<T>);
	const auto y = basis<K, C>(muu::is_signed<T>);
	for (size_t i = 0; i < x.size(); i++)
		for (size_t j = 0; j < y.size(); j++)
		{
			vf::at(int64_t(R), int64_t(K), int64_t(C), int64_t(i), int64_t(j));
			product<T, R, K, C>(x[i], y[j]);
		}
}
template <class T, size_t R, size_t C> static void shapes_c()
{
	if (mine_()) shape<T, R, C>();
	if (mine_()) { products<T, R, C, 1>(); products<T, R, C, 2>(); }
	if (mine_()) { products<T, R, C, 3>(); products<T, R, C, 4>(); }
	if (mine_()) products<T, R, C, 5>();
}
template <class T, size_t R> static void shapes_r()
{
	shapes_c<T, R, 1>();
	shapes_c<T, R, 2>();
	shapes_c<T, R, 3>();
	shapes_c<T, R, 4>();
	shapes_c<T, R, 5>();
}
template <class T> static void shapes(const char* name)
{
	if (!vf::group(name)) return;
	shapes_r<T, 1>();
	shapes_r<T, 2>();
	shapes_r<T, 3>();
	shapes_r<T, 4>();
	shapes_r<T, 5>();
}
// every product of two small square matrices
template <class T, size_t N> static void all_products(const char* name, const std::vector<int>& v)
{
	if (!vf::group(name)) return;
	const uint64_t n = ipow(v.size(), N * N);
	for (uint64_t i = 0; i < n; i++)
	{
		if (!mine_()) continue;
		const auto a = nth<N, N>(i, v);
		for (uint64_t j = 0; j < n; j++)
		{
			vf::at(int64_t(i), int64_t(j));
			product<T, N, N, N>(a, nth<N, N>(j, v));
		}
	}
}
// exact determinant and adjugate by cofactor expansion over long long
template <size_t N> static long long det(const long long (&a)[N][N])
{
	if constexpr (N == 1) return a[0][0];
	else
	{
		long long s = 0;
		for (size_t c = 0; c < N; c++)
		{
			long long m[N - 1][N - 1];
			for (size_t r = 1; r < N; r++)
				for (size_t k = 0, kk = 0; k < N; k++)
					if (k != c) m[r - 1][kk++] = a[r][k];
			s += (c & 1 ? -1 : 1) * a[0][c] * det<N - 1>(m);
		}
		return s;
	}
}
template <class T, size_t N> static void inverses(const char* name, const std::vector<int>& v, uint64_t step)
{
	if (!vf::group(name)) return;
	using M = matrix<T, N, N>;
	using IM = typename M::inverse_type;
	using IS = typename M::inverse_scalar_type;
	const uint64_t n = ipow(v.size(), N * N);
	for (uint64_t i = 0; i < n; i += step)
	{
		if (!mine_()) continue;
		vf::at(int64_t(i));
		const auto a = nth<N, N>(i, v);
		const M m = make<M>(a);
		long long e[N][N];
		L mag = 1;
		for (size_t r = 0; r < N; r++)
		{
			L row = 0;
			for (size_t c = 0; c < N; c++) e[r][c] = (long long)a[r][c], row += std::fabs(a[r][c]);
			mag *= std::max(row, 1.0L);
		}
		const long long d = det<N>(e);
		vf::state(1);
		vf::trans(1);
		VF_CHECK(L(M::determinant(m)) == d && L(muu::determinant(m)) == d, "determinant of %s is %lld, got %Lg", str(m).c_str(), d, L(M::determinant(m)));
		{ M k = m; VF_CHECK(L(k.determinant()) == d, "determinant()"); }
		const M& cm = m;
		VF_CHECK(L(cm.determinant()) == d, "determinant() of a const matrix");
		if (d == 0) continue;
		L inv[N][N];
		for (size_t r = 0; r < N; r++)
			for (size_t c = 0; c < N; c++)
			{
				// cofactor of (c, r)
				if constexpr (N == 1) inv[0][0] = 1.0L / d;
				else
				{
					long long q[N - 1][N - 1];
					for (size_t x = 0, xx = 0; x < N; x++)
					{
						if (x == c) continue;
						for (size_t y = 0, yy = 0; y < N; y++)
							if (y != r) q[xx][yy++] = e[x][y];
						xx++;
					}
					inv[r][c] = ((r + c) & 1 ? -1.0L : 1.0L) * det<N - 1>(q) / d;
				}
			}
		const auto want = [&](size_t r, size_t c) { return inv[r][c]; };
		const L tol = 4 + mag;
		each(M::invert(m), "invert", tol, want);
		each(muu::invert(m), "muu::invert", tol, want);
		if constexpr (fl<T>)
		{
			M k = m;
			M& r = k.invert();
			VF_CHECK(&r == &k, "invert returns itself");
			each(k, "in-place invert", tol, want);
		}
		static_assert(std::is_same_v<decltype(M::invert(m)), IM> && fl<IS>);
	}
}
// transforms ----------------------------------------------------------------------------------------------------------
template <class T, size_t R, size_t C> static void transforms_of(const A2<R, C>& a, int which)
{
	using M = matrix<T, R, C>;
	using V3 = vector<T, 3>;
	const M m = make<M>(a);
	vf::state(1);
	if constexpr (R >= 3 && C >= 3)
	{
		L len[3];
		for (size_t c = 0; c < 3; c++) len[c] = sqrtl(a[0][c] * a[0][c] + a[1][c] * a[1][c] + a[2][c] * a[2][c]);
		eachv(M::extract_3d_scale(m), "extract_3d_scale", 2, [&](size_t i) { return len[i]; });
		eachv(m.extract_3d_scale(), "extract_3d_scale", 2, [&](size_t i) { return len[i]; });
		for (int k = 0; k < 27; k++)
		{
			const L p[3] = { L(k % 3 * 2 - 1), L(k / 3 % 3 * 3 - 3), L(k / 9 * 2 - 1) };
			const V3 v{ static_cast<T>(p[0]), static_cast<T>(p[1]), static_cast<T>(p[2]) };
			L lin[3], w = 1, pos[3];
			for (size_t r = 0; r < 3; r++)
			{
				lin[r] = a[r][0] * p[0] + a[r][1] * p[1] + a[r][2] * p[2];
				pos[r] = lin[r] + (C == 4 ? a[r][C - 1] : 0);
			}
			if constexpr (R == 4) w = a[3][0] * p[0] + a[3][1] * p[1] + a[3][2] * p[2] + a[3][3];
			if (w != 0)
			{
				const auto want = [&](size_t i) { return pos[i] / w; };
				eachv(M::transform_position(m, v), "transform_position", 3, want);
				eachv(m.transform_position(v), "transform_position", 3, want);
				eachv(V3{ m * v }, "m * position", 3, want);
			}
			eachv(M::transform_without_translating(m, v), "transform_without_translating", 0, [&](size_t i) { return lin[i]; });
			eachv(m.transform_without_translating(v), "transform_without_translating", 0, [&](size_t i) { return lin[i]; });
			const L ll = sqrtl(lin[0] * lin[0] + lin[1] * lin[1] + lin[2] * lin[2]);
			const L pl = sqrtl(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
			if (ll > 0)
			{
				eachv(M::transform_direction(m, v), "transform_direction", 6, [&](size_t i) { return lin[i] / ll * pl; });
				eachv(m.transform_direction(v), "transform_direction", 6, [&](size_t i) { return lin[i] / ll * pl; });
			}
		}
		// shear and orthonormalization
		long long e[3][3];
		for (int r = 0; r < 3; r++)
			for (int c = 0; c < 3; c++) e[r][c] = (long long)a[size_t(r)][size_t(c)];
		const long long d = det<3>(e);
		const auto cd = [&](int x, int y) { return e[0][x] * e[0][y] + e[1][x] * e[1][y] + e[2][x] * e[2][y]; };
		if (len[0] > 0 && len[1] > 0 && len[2] > 0)
		{
			VF_CHECK(m.has_3d_shear() == (cd(0, 1) || cd(0, 2) || cd(1, 2)), "has_3d_shear of %s", str(m).c_str());
			const bool on = cd(0, 0) == 1 && cd(1, 1) == 1 && cd(2, 2) == 1 && !cd(0, 1) && !cd(0, 2) && !cd(1, 2);
			VF_CHECK(m.orthonormalized() == on && M::orthonormalized(m) == on, "orthonormalized() of %s", str(m).c_str());
		}
		if (d != 0)
		{
			// classical Gram-Schmidt in long double
			L q[3][3];
			for (int c = 0; c < 3; c++)
			{
				L x[3] = { L(e[0][c]), L(e[1][c]), L(e[2][c]) };
				for (int k = 0; k < c; k++)
				{
					const L dt = x[0] * q[0][k] + x[1] * q[1][k] + x[2] * q[2][k];
					for (int r = 0; r < 3; r++) x[r] -= dt * q[r][k];
				}
				const L n = sqrtl(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
				for (int r = 0; r < 3; r++) q[r][c] = x[r] / n;
			}
			const auto want = [&](size_t r, size_t c) { return r < 3 && c < 3 ? q[r][c] : a[r][c]; };
			const M o = M::orthonormalize(m);
			each(o, "orthonormalize", 64, want);
			each(muu::orthonormalize(m), "muu::orthonormalize", 64, want);
			M k = m;
			M& rk = k.orthonormalize();
			VF_CHECK(&rk == &k, "orthonormalize returns itself");
			each(k, "in-place orthonormalize", 64, want);
			VF_CHECK(o.orthonormalized() && !o.has_3d_shear(), "an orthonormalized matrix is orthonormalized");
		}
		// rotation part
		const auto rot = [&](size_t r, size_t c) { return r < 3 && c < 3 ? a[r][c] : L(r == c); };
		each(matrix<T, 3, 3>::from_3d_rotation(m), "from_3d_rotation", 0, rot);
		each(matrix<T, 3, 4>::from_3d_rotation(m), "from_3d_rotation", 0, rot);
		each(matrix<T, 4, 4>::from_3d_rotation(m), "from_3d_rotation", 0, rot);
		each(matrix<T, 3, 3>::from_rotation(m), "from_rotation", 0, rot);
		each(matrix<T, 3, 4>::from_rotation(m), "from_rotation", 0, rot);
		each(matrix<T, 4, 4>::from_rotation(m), "from_rotation", 0, rot);
		const auto cl = [&](size_t c) { return V3{ static_cast<T>(a[0][c]), static_cast<T>(a[1][c]), static_cast<T>(a[2][c]) }; };
		each(M::from_axes(cl(0), cl(1), cl(2)), "from_axes", 0, rot);
	}
	if constexpr (R <= 3 && C <= 3)
	{
		const auto rot = [&](size_t r, size_t c) { return r < 2 && c < 2 ? a[r][c] : L(r == c); };
		each(matrix<T, 2, 2>::from_2d_rotation(m), "from_2d_rotation", 0, rot);
		each(matrix<T, 2, 3>::from_2d_rotation(m), "from_2d_rotation", 0, rot);
		each(matrix<T, 3, 3>::from_2d_rotation(m), "from_2d_rotation", 0, rot);
		if constexpr (R == 2)
		{
			each(matrix<T, 2, 2>::from_rotation(m), "from_rotation", 0, rot);
			each(matrix<T, 2, 3>::from_rotation(m), "from_rotation", 0, rot);
			each(matrix<T, 3, 3>::from_rotation(m), "from_rotation", 0, rot);
		}
		const auto cl = [&](size_t c) { return vector<T, 2>{ static_cast<T>(a[0][c]), static_cast<T>(a[1][c]) }; };
		each(M::from_axes(cl(0), cl(1)), "from_axes (2D)", 0, rot);
		L len[2];
		for (size_t c = 0; c < 2; c++) len[c] = sqrtl(a[0][c] * a[0][c] + a[1][c] * a[1][c]);
		eachv(M::extract_2d_scale(m), "extract_2d_scale", 2, [&](size_t i) { return len[i]; });
		eachv(m.extract_2d_scale(), "extract_2d_scale", 2, [&](size_t i) { return len[i]; });
		if constexpr (R == 2)
			if (len[0] > 0 && len[1] > 0) { VF_CHECK(m.has_2d_shear() == (a[0][0] * a[0][1] + a[1][0] * a[1][1] != 0), "has_2d_shear of %s", str(m).c_str()); }
	}
	(void)which;
}
template <class T, size_t R, size_t C> static void transforms(const char* name)
{
	if (!vf::group(name)) return;
	// all 3x3 parts over {-1,0,2}; the remaining column and row vary with them
	constexpr size_t r3 = R < 3 ? R : 3, c3 = C < 3 ? C : 3;
	const std::vector<int> v = R * C > 6 ? std::vector<int>{ -1, 0, 2 } : std::vector<int>{ -3, -1, 0, 1, 2 };
	const uint64_t n = ipow(v.size(), r3 * c3);
	static const int extra[7] = { 0, 3, -2, 1, -1, 2, 4 };
	for (uint64_t i = 0; i < n; i++)
	{
		if (!mine_()) continue;
		vf::at(int64_t(i));
		const auto p = nth<r3, c3>(i, v);
		A2<R, C> a;
		for (size_t r = 0; r < R; r++)
			for (size_t c = 0; c < C; c++)
				a[r][c] = r < 3 && c < 3 ? p[r < r3 ? r : 0][c < c3 ? c : 0] : r == 3 && c == 3 ? extra[i % 3 + 1 == 2 ? 3 : i % 3 + 1] : extra[(i * (3 * r + c + 1) + r + 2 * c) % 7];
		if constexpr (R == 4)
			if (i % 2 == 0) a[3][0] = a[3][1] = a[3][2] = 0, a[3][3] = 1; // affine
		transforms_of<T, R, C>(a, 0);
	}
}
template <class M, size_t D> static void scale_from(int i, int j, int k)
{
	using T = typename M::scalar_type;
	vector<T, D> v{ static_cast<T>(0) };
	const L s[3] = { L(i), L(j), L(k) };
	for (size_t x = 0; x < D && x < 3; x++) v[x] = static_cast<T>(s[x]);
	constexpr bool d3 = M::columns >= 3 && M::rows >= 3;
	const auto w2 = [&](size_t r, size_t c) { return r != c ? 0 : r < 2 && r < D ? s[r] : 1; };
	const auto w3 = [&](size_t r, size_t c) { return r != c ? 0 : r < 3 && r < D ? s[r] : 1; };
	if constexpr (M::columns <= 3 || M::rows >= 3) each(M::from_2d_scale(v), "from_2d_scale(vector)", 0, w2);
	if constexpr (d3) each(M::from_3d_scale(v), "from_3d_scale(vector)", 0, w3);
	if constexpr (D == 2) each(M::from_scale(v), "from_scale(2D)", 0, w2);
	if constexpr (D == 3 && d3) each(M::from_scale(v), "from_scale(3D)", 0, w3);
	constexpr bool t2 = (M::rows == 2 && M::columns == 3) || (M::rows == 3 && M::columns == 3);
	constexpr bool t3 = M::columns == 4 && M::rows >= 3;
	const auto x2 = [&](size_t r, size_t c) { return r == c ? 1.0L : c == M::columns - 1 && r < 2 && r < D ? s[r] : 0; };
	const auto x3 = [&](size_t r, size_t c) { return r == c ? 1.0L : c == M::columns - 1 && r < 3 && r < D ? s[r] : 0; };
	if constexpr (t2 || t3) each(M::from_2d_translation(v), "from_2d_translation(vector)", 0, x2);
	if constexpr (t3) each(M::from_3d_translation(v), "from_3d_translation(vector)", 0, x3);
	if constexpr (D == 2 && (t2 || t3)) each(M::from_translation(v), "from_translation(2D)", 0, x2);
	if constexpr (D == 3 && t3) each(M::from_translation(v), "from_translation(3D)", 0, x3);
	const T a = static_cast<T>(i), b = static_cast<T>(j), cc = static_cast<T>(k);
	if constexpr (D == 2)
	{
		each(M::from_2d_scale(a, b), "from_2d_scale", 0, w2);
		each(M::from_scale(a, b), "from_scale", 0, w2);
		if constexpr (d3) each(M::from_3d_scale(a, b), "from_3d_scale(x, y)", 0, w2);
		if constexpr (t2 || t3) { each(M::from_2d_translation(a, b), "from_2d_translation", 0, x2); each(M::from_translation(a, b), "from_translation", 0, x2); }
		if constexpr (t3) each(M::from_3d_translation(a, b), "from_3d_translation(x, y)", 0, x2);
	}
	if constexpr (D == 3 && d3)
	{
		each(M::from_3d_scale(a, b, cc), "from_3d_scale", 0, w3);
		each(M::from_scale(a, b, cc), "from_scale", 0, w3);
		if constexpr (t3) { each(M::from_3d_translation(a, b, cc), "from_3d_translation", 0, x3); each(M::from_translation(a, b, cc), "from_translation", 0, x3); }
	}
}
template <class M> static void scales()
{
	for (int i = -2; i <= 3; i++)
		for (int j = -2; j <= 3; j++)
			for (int k = -2; k <= 3; k++)
			{
				vf::at(i, j, k, int64_t(M::rows), int64_t(M::columns));
				vf::state(1);
				scale_from<M, 1>(i, j, k);
				scale_from<M, 2>(i, j, k);
				scale_from<M, 3>(i, j, k);
				scale_from<M, 4>(i, j, k);
				scale_from<M, 5>(i, j, k);
			}
}
template <class T> static void direction(const char* name)
{
	if (!vf::group(name)) return;
	using V = vector<T, 3>;
	const int n = vf::thorough ? 12 : 6;
	for (int x = -n; x <= n; x++)
		for (int y = -n; y <= n; y++)
			for (int z = -n; z <= n; z++)
			{
				if (!x && !y && !z) continue;
				if (!mine_()) continue;
				vf::at(x, y, z);
				vf::state(1);
				vf::trans(3);
				const L l = sqrtl(L(x * x + y * y + z * z));
				const L d[3] = { x / l, y / l, z / l };
				const V dir{ static_cast<T>(d[0]), static_cast<T>(d[1]), static_cast<T>(d[2]) };
				const auto test = [&](const auto& m) {
					using M = std::decay_t<decltype(m)>;
					const L e = 64 * ulp<T>();
					for (size_t r = 0; r < M::rows; r++)
						for (size_t c = 0; c < M::columns; c++)
							if (r > 2 || c > 2) { VF_CHECK(L(m(r, c)) == L(r == c), "from_3d_direction: fourth row or column"); }
					L q[3][3];
					for (int r = 0; r < 3; r++)
						for (int c = 0; c < 3; c++) q[r][c] = L(m(size_t(r), size_t(c)));
					for (int c = 0; c < 3; c++) { VF_CHECK(near(-q[c][2], d[c], e), "from_3d_direction: forward axis"); }
					for (int a = 0; a < 3; a++)
						for (int b = 0; b < 3; b++)
						{
							const L dt = q[0][a] * q[0][b] + q[1][a] * q[1][b] + q[2][a] * q[2][b];
							VF_CHECK(near(dt, a == b, e), "from_3d_direction: axes are not orthonormal");
						}
					const L dd = q[0][0] * (q[1][1] * q[2][2] - q[1][2] * q[2][1]) - q[0][1] * (q[1][0] * q[2][2] - q[1][2] * q[2][0]) + q[0][2] * (q[1][0] * q[2][1] - q[1][1] * q[2][0]);
					VF_CHECK(near(dd, 1, e), "from_3d_direction: not a rotation");
					VF_CHECK(near(q[1][0], 0, e) && q[1][1] > -e, "from_3d_direction: right axis not horizontal or upside down");
				};
				test(matrix<T, 3, 3>::from_3d_direction(dir));
				test(matrix<T, 3, 4>::from_3d_direction(dir));
				test(matrix<T, 4, 4>::from_3d_direction(dir));
			}
}
template <math_apis Mode, class T> static void project(L fov, L w, L h, L n, L f)
{
	using M = matrix<T, 4, 4>;
	using V = vector<T, 3>;
	vf::state(1);
	vf::trans(2);
	const M ms[2] = { M::template perspective_projection<Mode>(T(fov), T(w / h), T(n), T(f)),
					  M::template perspective_projection<Mode>(T(fov), vector<T, 2>{ T(w), T(h) }, T(n), T(f)) };
	constexpr bool gl = !!(Mode & math_apis::opengl), lh = !!(Mode & math_apis::left_handed);
	for (int o = 0; o < 2; o++)
		for (int i = 0; i <= 4; i++)
		{
			const L depth = n + (f - n) * i / 4, t = tanl(fov / 2) * depth;
			for (int x = -2; x <= 2; x++)
				for (int y = -2; y <= 2; y++)
				{
					const V p = ms[o].transform_position(V{ T(t * w / h * x / 2), T(t * y / 2), T(lh ? depth : -depth) });
					const L e = 64 * ulp<T>() * (1 + f / (f - n)) * (1 + 1 / fov + fov);
					const L q = (1 / n - 1 / depth) / (1 / n - 1 / f); // 0 at the near plane, 1 at the far plane
					const L z = gl ? 2 * q - 1 : q;
					VF_CHECK(near(L(p.x), x / 2.0L, e) && near(L(p.y), y / 2.0L, e), "projection %d (overload %d) maps depth %Lg, (%d/2, %d/2) to (%Lg, %Lg)", int(Mode), o, depth, x, y, L(p.x), L(p.y));
					VF_CHECK(near(L(p.z), z, e), "projection %d (overload %d) maps depth %Lg of [%Lg, %Lg] to %Lg, should be %Lg", int(Mode), o, depth, n, f, L(p.z), z);
				}
		}
}
template <class T> static void projections(const char* name)
{
	if (!vf::group(name)) return;
	for (int fv = 1; fv <= 5; fv++)
		for (int as = 0; as < 4; as++)
			for (int nn = 0; nn < 3; nn++)
				for (int ff = 0; ff < 4; ff++)
				{
					if (!mine_()) continue;
					vf::at(fv, as, nn, ff);
					const L w[4] = { 1, 4, 16, 3 }, h[4] = { 1, 3, 9, 5 }, n[3] = { 0.125L, 1, 10 }, f[4] = { 1.5L, 2, 16, 1000 };
					const L fov = fv * 0.5L;
					project<math_apis::directx | math_apis::right_handed, T>(fov, w[as], h[as], n[nn], n[nn] * f[ff]);
					project<math_apis::directx | math_apis::left_handed, T>(fov, w[as], h[as], n[nn], n[nn] * f[ff]);
					project<math_apis::opengl | math_apis::right_handed, T>(fov, w[as], h[as], n[nn], n[nn] * f[ff]);
					project<math_apis::opengl | math_apis::left_handed, T>(fov, w[as], h[as], n[nn], n[nn] * f[ff]);
				}
}
template <class M, size_t C> static void one_column(M& m)
{
	VF_CHECK((void*)&m.template column<C>() == (void*)(m.data() + C * M::rows), "column<%zu>", C);
	VF_CHECK(((void*)&m.template get<M::rows - 1, C>() == (void*)(m.data() + C * M::rows + M::rows - 1)), "get<>");
	if constexpr (C + 1 < M::columns) one_column<M, C + 1>(m);
}
template <class T, size_t R, size_t C> static void accessors()
{
	using M = matrix<T, R, C>;
	vf::state(1);
	M m{ static_cast<T>(0) };
	const M& cm = m;
	one_column<M, 0>(m);
	if constexpr (C >= 2) { VF_CHECK(&m.x_column() == &m.template column<0>() && &cm.y_column() == &cm.template column<1>(), "x/y column"); }
	if constexpr (C >= 3) { VF_CHECK(&m.z_column() == &m.template column<2>() && &cm.z_column() == &cm.template column<2>(), "z column"); }
	if constexpr (C >= 4) { VF_CHECK(&m.w_column() == &m.template column<3>() && &cm.w_column() == &cm.template column<3>(), "w column"); }
	if constexpr ((R == 2 && C == 3) || (R == 3 && C == 3) || (R == 3 && C == 4) || (R == 4 && C == 4)) { VF_CHECK(&m.translation_column() == &m.template column<C - 1>() && &cm.translation_column() == &cm.template column<C - 1>(), "translation column"); }
	const M b{ static_cast<T>(6) };
	each(b, "broadcast", 0, [](size_t, size_t) { return 6.0L; });
	static_assert(sizeof(M) == sizeof(T) * R * C && std::is_trivially_copyable_v<M>);
}
template <class T> static void construction(const char* name)
{
	if (!vf::group(name) || !mine_()) return;
	accessors<T, 1, 1>(); accessors<T, 1, 2>(); accessors<T, 2, 1>(); accessors<T, 2, 2>(); accessors<T, 2, 3>(); accessors<T, 3, 2>();
	accessors<T, 3, 3>(); accessors<T, 3, 4>(); accessors<T, 4, 3>(); accessors<T, 4, 4>(); accessors<T, 5, 5>(); accessors<T, 4, 5>(); accessors<T, 5, 3>();
	const auto seq = [](size_t C) { return [C](size_t r, size_t c) { return L(r * C + c + 1); }; };
#define t(n) static_cast<T>(n)
	each(matrix<T, 2, 2>{ t(1), t(2), t(3), t(4) }, "2x2 scalars", 0, seq(2));
	each(matrix<T, 2, 3>{ t(1), t(2), t(3), t(4), t(5), t(6) }, "2x3 scalars", 0, seq(3));
	each(matrix<T, 3, 3>{ t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8), t(9) }, "3x3 scalars", 0, seq(3));
	each(matrix<T, 3, 4>{ t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8), t(9), t(10), t(11), t(12) }, "3x4 scalars", 0, seq(4));
	each(matrix<T, 4, 4>{ t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8), t(9), t(10), t(11), t(12), t(13), t(14), t(15), t(16) }, "4x4 scalars", 0, seq(4));
	each(matrix<T, 3, 2>{ t(1), t(2), t(3), t(4), t(5), t(6) }, "3x2 scalars", 0, seq(2));
	each(matrix<T, 5, 2>{ t(1), t(2), t(3), t(4), t(5), t(6), t(7), t(8), t(9), t(10) }, "5x2 scalars", 0, seq(2));
	each(matrix<T, 1, 4>{ t(1), t(2), t(3), t(4) }, "1x4 scalars", 0, seq(4));
	each(matrix<T, 2, 5>{ t(1), t(2), t(3), t(4), t(5), t(6), t(7) }, "2x5 from 7 scalars", 0, [](size_t r, size_t c) { return r * 5 + c < 7 ? L(r * 5 + c + 1) : 0; });
	each(matrix<T, 4, 3>{ t(1), t(2) }, "4x3 from 2 scalars", 0, [](size_t r, size_t c) { return r == 0 && c < 2 ? L(c + 1) : 0; });
	const vector<T, 3> a{ t(1), t(2), t(3) }, b{ t(4), t(5), t(6) }, c{ t(7), t(8), t(9) };
	const auto col = [](size_t R, size_t C, size_t n) { return [=](size_t r, size_t q) { return r < 3 && q < n ? L(q * 3 + r + 1) : 0; }; };
	each(matrix<T, 3, 3>{ a, b, c }, "3 columns", 0, col(3, 3, 3));
	each(matrix<T, 3, 2>{ a, b }, "2 columns", 0, col(3, 2, 2));
	each(matrix<T, 4, 4>{ a, b, c }, "3 short columns", 0, col(4, 4, 3));
	each(matrix<T, 2, 4>{ a, b }, "2 long columns", 0, col(2, 4, 2));
	each(matrix<T, 5, 5>{ a, b, c }, "3 columns of 5x5", 0, col(5, 5, 3));
	static_assert(std::is_same_v<decltype(matrix{ a, b, c }), matrix<T, 3, 3>>);
	static_assert(std::is_same_v<decltype(matrix{ t(1), t(2), t(3), t(4), t(5), t(6) }), matrix<T, 2, 3>>);
#undef t
	// constants
	if constexpr (muu::is_signed<T>)
	{
		const auto fwd = [](const auto& m, L x, L y, L z) {
			// forward is -z, and all three are proper rotations keeping the axis of rotation
			long long e[3][3];
			for (int r = 0; r < 3; r++)
				for (int k = 0; k < 3; k++) e[r][k] = (long long)L(m(size_t(r), size_t(k)));
			bool ok = -e[0][2] == x && -e[1][2] == y && -e[2][2] == z && det<3>(e) == 1;
			for (int p = 0; p < 3; p++)
				for (int q = 0; q < 3; q++) ok = ok && e[0][p] * e[0][q] + e[1][p] * e[1][q] + e[2][p] * e[2][q] == (p == q);
			using M = std::decay_t<decltype(m)>;
			for (size_t r = 0; r < M::rows; r++)
				for (size_t k = 0; k < M::columns; k++)
					if (r > 2 || k > 2) ok = ok && L(m(r, k)) == L(r == k);
			return ok;
		};
		const auto tests = [&](auto m) {
			using C = constants<decltype(m)>;
			VF_CHECK(fwd(C::right, 1, 0, 0) && L(C::right(1, 1)) == 1, "right");
			VF_CHECK(fwd(C::left, -1, 0, 0) && L(C::left(1, 1)) == 1, "left");
			VF_CHECK(fwd(C::up, 0, 1, 0) && L(C::up(0, 0)) == 1, "up");
			VF_CHECK(fwd(C::down, 0, -1, 0) && L(C::down(0, 0)) == 1, "down");
			VF_CHECK(fwd(C::backward, 0, 0, 1) && L(C::backward(1, 1)) == 1, "backward");
		};
		tests(matrix<T, 3, 3>{});
		tests(matrix<T, 3, 4>{});
		tests(matrix<T, 4, 4>{});
	}
}
#ifndef NO_CT
static constexpr bool ct()
{
	constexpr matrix<int, 3, 3> a{ 1, 2, 3, 0, 1, 4, 5, 6, 0 };
	static_assert(matrix<int, 3, 3>::determinant(a) == 1);
	static_assert(matrix<int, 3, 3>::invert(a) == matrix<double, 3, 3>{ -24, 18, 5, 20, -15, -4, -5, 4, 1 });
	static_assert(a * constants<matrix<int, 3, 3>>::identity == a);
	static_assert(a * vector<int, 3>{ 1, 0, -1 } == vector<int, 3>{ -2, -4, 5 });
	static_assert(vector<int, 3>{ 1, 0, -1 } * a == vector<int, 3>{ -4, -4, 3 });
	static_assert(transpose(a)(0, 2) == 5 && a(2, 0) == 5);
	constexpr matrix<float, 4, 4> b = matrix<float, 4, 4>::from_3d_translation(1, 2, 3) * matrix<float, 4, 4>::from_3d_scale(2, 2, 2);
	static_assert(b.transform_position({ 1, 1, 1 }) == vector<float, 3>{ 3, 4, 5 });
	static_assert(matrix<float, 4, 4>::invert(b).transform_position({ 3, 4, 5 }) == vector<float, 3>{ 1, 1, 1 });
	constexpr matrix<int, 3, 2> c{ 1, 2, 3, 4, 5, 6 };
	static_assert(c * transpose(c) == matrix<int, 3, 3>{ 5, 11, 17, 11, 25, 39, 17, 39, 61 });
	return true;
}
#endif
int main(int argc, char** argv)
{
	vf::init(argc, argv);
#ifndef NO_CT
	static_assert(ct());
#endif
	const bool th = vf::thorough;
#if GRP == 0 || GRP == 1
	shapes<int>("shapes_int");
	construction<int>("construct_int");
	inverses<int, 1>("inv_int1", { -4, -3, -2, -1, 0, 1, 2, 3, 4 }, 1);
	inverses<int, 2>("inv_int2", { -4, -3, -2, -1, 0, 1, 2, 3, 4 }, 1);
	inverses<int, 3>("inv_int3", { -2, 0, 1, 3 }, 1);
	inverses<int, 4>("inv_int4", { 0, 1 }, 1);
	all_products<int, 2>("products_int2", { -2, 0, 1, 3 });
#endif
#if GRP == 0 || GRP == 2
	shapes<float>("shapes_float");
	construction<float>("construct_float");
	inverses<float, 1>("inv_float1", { -4, -3, -2, -1, 0, 1, 2, 3, 4 }, 1);
	inverses<float, 2>("inv_float2", { -4, -3, -2, -1, 0, 1, 2, 3, 4 }, 1);
	inverses<float, 3>("inv_float3", { -1, 0, 2, 3 }, 1);
	inverses<float, 4>("inv_float4", { -1, 2 }, 1);
	if (th) inverses<float, 4>("inv_float4t", { -1, 0, 2 }, 7);
	all_products<float, 2>("products_float2", { -2, 0, 1, 3 });
	all_products<float, 3>("products_float3", { -1, 2 });
	transforms<float, 3, 3>("xf_float33");
	transforms<float, 3, 4>("xf_float34");
	transforms<float, 4, 4>("xf_float44");
	transforms<float, 2, 2>("xf_float22");
	transforms<float, 2, 3>("xf_float23");
	direction<float>("dir_float");
	projections<float>("proj_float");
#endif
#if GRP == 0 || GRP == 3
	shapes<double>("shapes_double");
	construction<double>("construct_double");
	inverses<double, 3>("inv_double3", { -3, 0, 1, 2 }, 1);
	inverses<double, 4>("inv_double4", { -3, 1 }, 1);
	if (th) inverses<double, 4>("inv_double4t", { -1, 0, 3 }, 5);
	transforms<double, 3, 3>("xf_double33");
	transforms<double, 3, 4>("xf_double34");
	transforms<double, 4, 4>("xf_double44");
	transforms<double, 2, 2>("xf_double22");
	transforms<double, 2, 3>("xf_double23");
	direction<double>("dir_double");
	projections<double>("proj_double");
	all_products<double, 3>("products_double3", { 0, 3 });
#endif
#if GRP == 0 || GRP == 4
	shapes<short>("shapes_short");
	shapes<unsigned>("shapes_uint");
	construction<short>("construct_short");
	construction<unsigned>("construct_uint");
	inverses<unsigned, 3>("inv_uint3", { 0, 1, 2, 5 }, 1);
	inverses<unsigned, 2>("inv_uint2", { 0, 1, 2, 5, 7 }, 1);
	inverses<signed char, 2>("inv_schar2", { -5, -3, 0, 1, 4 }, 1);
	inverses<unsigned char, 3>("inv_uchar3", { 0, 1, 3 }, 1);
	inverses<long long, 4>("inv_ll4", { 0, 2 }, 1);
#endif
#if GRP == 0 || GRP == 5
	shapes<half>("shapes_half");
	construction<half>("construct_half");
	inverses<half, 2>("inv_half2", { -3, -1, 0, 1, 2 }, 1);
	inverses<half, 3>("inv_half3", { -1, 0, 2 }, 1);
	inverses<half, 4>("inv_half4", { 0, 1 }, 1);
	transforms<half, 3, 3>("xf_half33");
	direction<half>("dir_half");
	if (vf::group("scales") && mine_())
	{
		scales<matrix<float, 2, 2>>(); scales<matrix<float, 2, 3>>(); scales<matrix<float, 3, 3>>(); scales<matrix<float, 3, 4>>(); scales<matrix<float, 4, 4>>();
		scales<matrix<int, 2, 2>>(); scales<matrix<int, 2, 3>>(); scales<matrix<int, 3, 3>>(); scales<matrix<int, 3, 4>>(); scales<matrix<int, 4, 4>>();
	}
#endif
	return vf::finish();
}
