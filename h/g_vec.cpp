// G01/G02: every pair of vectors with components from a small set, in every dimension and scalar type, against plain
// component arrays.
#include "muu/half.h"
#include "muu/vector.h"
#include "muu/span.h"
#include "vf.h"
#include <cmath>
#include <sstream>
#include <array>
#include <tuple>
using namespace muu;
using L = long double;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
template <class T> constexpr bool fl = muu::is_floating_point<T>;
template <class T> constexpr L ulp()
{
	if constexpr (!fl<T>) return 0;
	else if constexpr (sizeof(T) == 2) return 0x1p-10L;
	else return L(std::numeric_limits<T>::epsilon());
}
template <class T> static std::vector<int> domain(size_t d)
{
	// keeps |domain|^(2 d) within reach
	const bool sg = muu::is_signed<T>, th = vf::thorough;
	if (d == 6) return sg ? std::vector<int>{ -3, 2 } : std::vector<int>{ 1, 3 };
	if (d == 5) return sg ? th ? std::vector<int>{ -3, 0, 2 } : std::vector<int>{ -3, 2 } : std::vector<int>{ 1, 3 };
	if (d == 4) return sg ? th ? std::vector<int>{ -4, -1, 0, 1, 2 } : std::vector<int>{ -2, 0, 1, 3 } : std::vector<int>{ 0, 1, 3, 4 };
	if (d == 3) return sg ? th ? std::vector<int>{ -7, -5, -2, -1, 0, 1, 2, 3, 4 } : std::vector<int>{ -5, -2, -1, 0, 1, 3, 4 } : std::vector<int>{ 0, 1, 2, 4, 5, 7 };
	return sg ? std::vector<int>{ -9, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8 } : std::vector<int>{ 0, 1, 2, 3, 4, 6, 7, 8, 9 };
}
template <class V> static V make(const std::vector<L>& c)
{
	V v;
	for (size_t i = 0; i < V::dimensions; i++) v[i] = static_cast<typename V::scalar_type>(c[i]);
	return v;
}
template <class V> static std::string str(const V& v)
{
	std::string s = "{";
	for (size_t i = 0; i < V::dimensions; i++) s += (i ? "," : "") + std::to_string((double)L(v[i]));
	return s + "}";
}
static bool near(L a, L b, L tol) { return a == b || std::fabs(a - b) <= tol; }
template <class V, class F> static void each(const V& got, const char* what, L rel, F&& want)
{
	vf::trans(1);
	for (size_t i = 0; i < V::dimensions; i++)
	{
		const L w = want(i);
		VF_CHECK(near(L(got[i]), w, rel * ulp<typename V::scalar_type>() * std::fabs(w)), "%s: %s, component %zu should be %Lg", what, str(got).c_str(), i, w);
	}
}
static void scal(L got, const char* what, L want, L tol)
{
	vf::trans(1);
	VF_CHECK(near(got, want, tol), "%s: %.20Lg, should be %.20Lg", what, got, want);
}
template <class T> static L asT(L v) { return L(static_cast<T>(v)); }

template <class T, size_t D> static void arith(const std::vector<L>& A, const std::vector<L>& B)
{
	using V = vector<T, D>;
	const V a = make<V>(A), b = make<V>(B);
	vf::state(1);
	bool eq = true, zero = true, azero = true;
	for (size_t i = 0; i < D; i++) eq = eq && A[i] == B[i], zero = zero && A[i] == 0;
	azero = zero;
	VF_CHECK((a == b) == eq && (a != b) == !eq, "equality of %s and %s", str(a).c_str(), str(b).c_str());
	VF_CHECK(a.zero() == zero && V::zero(a) == zero, "zero");
	if constexpr (fl<T>)
	{
		VF_CHECK(approx_equal(a, b) == eq && a.approx_equal(b) == eq && V::approx_equal(a, b) == eq, "approx_equal");
		VF_CHECK(approx_zero(a) == azero && a.approx_zero() == azero && V::approx_zero(a) == azero, "approx_zero");
		L m = 0, mz = 0;
		for (size_t i = 0; i < D; i++) m = std::max(m, std::fabs(A[i] - B[i])), mz = std::max(mz, std::fabs(A[i]));
		VF_CHECK(V::approx_equal(a, b, T(2.5)) == (m < 2.5L), "approx_equal with an epsilon");
		VF_CHECK(approx_zero(a, T(2.5)) == (mz < 2.5L) && a.approx_zero(T(2.5)) == (mz < 2.5L), "approx_zero with an epsilon");
	}
	VF_CHECK(!infinity_or_nan(a) && !a.infinity_or_nan() && !V::infinity_or_nan(a), "infinity_or_nan of a finite vector");
	each(a + b, "a + b", 0, [&](size_t i) { return asT<T>(A[i] + B[i]); });
	each(+a, "+a", 0, [&](size_t i) { return A[i]; });
	{ V c = a; V& r = (c += b); VF_CHECK(&r == &c, "+= returns itself"); each(c, "a += b", 0, [&](size_t i) { return asT<T>(A[i] + B[i]); }); }
	bool sub_ok = true, div_ok = true;
	for (size_t i = 0; i < D; i++) sub_ok = sub_ok && (muu::is_signed<T> || A[i] >= B[i]), div_ok = div_ok && B[i] != 0;
	if (sub_ok)
	{
		each(a - b, "a - b", 0, [&](size_t i) { return A[i] - B[i]; });
		V c = a;
		V& r = (c -= b);
		VF_CHECK(&r == &c, "-= returns itself");
		each(c, "a -= b", 0, [&](size_t i) { return A[i] - B[i]; });
	}
	if constexpr (muu::is_signed<T>) each(-a, "-a", 0, [&](size_t i) { return -A[i]; });
	each(a * b, "a * b", 0, [&](size_t i) { return A[i] * B[i]; });
	{ V c = a; V& r = (c *= b); VF_CHECK(&r == &c, "*= returns itself"); each(c, "a *= b", 0, [&](size_t i) { return A[i] * B[i]; }); }
	if (div_ok)
	{
		const auto q = [&](size_t i) { return fl<T> ? A[i] / B[i] : std::trunc(A[i] / B[i]); };
		const auto m = [&](size_t i) { return std::fmod(A[i], B[i]); };
		each(a / b, "a / b", 1, q);
		{ V c = a; V& r = (c /= b); VF_CHECK(&r == &c, "/= returns itself"); each(c, "a /= b", 1, q); }
		each(a % b, "a % b", 0, m);
		{ V c = a; V& r = (c %= b); VF_CHECK(&r == &c, "%%= returns itself"); each(c, "a %%= b", 0, m); }
	}
	// scalar forms: with the last component of b
	const L S = B[D - 1];
	const T s = static_cast<T>(S);
	each(a * s, "a * s", 0, [&](size_t i) { return A[i] * S; });
	each(s * a, "s * a", 0, [&](size_t i) { return A[i] * S; });
	{ V c = a; V& r = (c *= s); VF_CHECK(&r == &c, "*= returns itself"); each(c, "a *= s", 0, [&](size_t i) { return A[i] * S; }); }
	{ V c = a; c *= c[0]; each(c, "a *= a[0]", 0, [&](size_t i) { return A[i] * A[0]; }); }
	{ V c = a; c += c; each(c, "a += a", 0, [&](size_t i) { return A[i] + A[i]; }); }
	{ V c = a; c *= c; each(c, "a *= a", 0, [&](size_t i) { return A[i] * A[i]; }); }
	if (S != 0)
	{
		const auto q = [&](size_t i) { return fl<T> ? A[i] / S : std::trunc(A[i] / S); };
		const auto m = [&](size_t i) { return std::fmod(A[i], S); };
		each(a / s, "a / s", 2, q);
		{ V c = a; V& r = (c /= s); VF_CHECK(&r == &c, "/= returns itself"); each(c, "a /= s", 2, q); }
		each(a % s, "a % s", 0, m);
		{ V c = a; V& r = (c %= s); VF_CHECK(&r == &c, "%%= returns itself"); each(c, "a %%= s", 0, m); }
	}
	if constexpr (muu::is_integral<T>)
		for (int sh = 0; sh <= 3; sh++)
		{
			bool nonneg = true;
			for (size_t i = 0; i < D; i++) nonneg = nonneg && A[i] >= 0;
			if (nonneg)
			{
				each(a << sh, "a << n", 0, [&](size_t i) { return L((long long)A[i] << sh); });
				V c = a;
				c <<= sh;
				each(c, "a <<= n", 0, [&](size_t i) { return L((long long)A[i] << sh); });
			}
			each(a >> sh, "a >> n", 0, [&](size_t i) { return L((long long)A[i] >> sh); });
			V c = a;
			c >>= sh;
			each(c, "a >>= n", 0, [&](size_t i) { return L((long long)A[i] >> sh); });
		}
	L sum = 0, prod = 1;
	for (size_t i = 0; i < D; i++) sum += A[i], prod *= A[i];
	scal(L(a.sum()), "sum", asT<T>(sum), 0);
	scal(L(V::sum(a)), "sum", asT<T>(sum), 0);
	if (std::fabs(prod) <= 127 || sizeof(T) >= 4)
	{
		scal(L(a.product()), "product", prod, 0);
		scal(L(V::product(a)), "product", prod, 0);
	}
	// min / max / clamp
	const auto mn = [&](size_t i) { return std::min(A[i], B[i]); };
	const auto mx = [&](size_t i) { return std::max(A[i], B[i]); };
	each(V::min(a, b), "min", 0, mn);
	each(muu::min(a, b), "muu::min", 0, mn);
	each(V::max(a, b), "max", 0, mx);
	each(muu::max(a, b), "muu::max", 0, mx);
	each(V::min({ a, b }), "min list", 0, mn);
	each(V::max({ a, b }), "max list", 0, mx);
	const V m1 = V::min(a, b), m2 = V::max(a, b);
	for (int k = -1; k <= 4; k++)
	{
		if (k < 0 && !muu::is_signed<T>) continue;
		const V c(static_cast<T>(k));
		const auto want = [&](size_t i) { return std::min(std::max(L(k), mn(i)), mx(i)); };
		each(V::clamp(c, m1, m2), "clamp", 0, want);
		each(muu::clamp(c, m1, m2), "muu::clamp", 0, want);
		V d = c;
		d.clamp(m1, m2);
		each(d, "in-place clamp", 0, want);
		const auto mn3 = [&](size_t i) { return std::min(L(k), mn(i)); };
		const auto mx3 = [&](size_t i) { return std::max(L(k), mx(i)); };
		each(V::min(a, b, c), "min of three", 0, mn3);
		each(muu::min(c, a, b), "muu::min of three", 0, mn3);
		each(V::max(a, c, b), "max of three", 0, mx3);
		each(muu::max(a, b, c), "muu::max of three", 0, mx3);
		each(V::min({ a, b, c }), "min of a list", 0, mn3);
		each(V::max({ a, b, c }), "max of a list", 0, mx3);
		const V arr[4] = { b, c, a, b };
		each(V::min(arr, arr + 4), "min of a range", 0, mn3);
		each(V::max(arr, arr + 4), "max of a range", 0, mx3);
	}
	each(V::min({ a }), "min of one", 0, [&](size_t i) { return A[i]; });
	each(V::max({ a }), "max of one", 0, [&](size_t i) { return A[i]; });
	const std::initializer_list<V> nil{};
	each(V::min(nil), "min of none", 0, [&](size_t) { return 0.0L; });
	each(V::max(nil), "max of none", 0, [&](size_t) { return 0.0L; });
	each(V::abs(a), "abs", 0, [&](size_t i) { return std::fabs(A[i]); });
	each(a.abs(), "abs()", 0, [&](size_t i) { return std::fabs(A[i]); });
	each(muu::abs(a), "muu::abs", 0, [&](size_t i) { return std::fabs(A[i]); });
	{
		const V h = fl<T> ? a * static_cast<T>(0.25) : a;
		const auto f = [&](size_t i) { return fl<T> ? std::floor(A[i] / 4) : A[i]; };
		const auto c = [&](size_t i) { return fl<T> ? std::ceil(A[i] / 4) : A[i]; };
		each(V::floor(h), "floor", 0, f);
		each(h.floor(), "floor()", 0, f);
		each(muu::floor(h), "muu::floor", 0, f);
		each(V::ceil(h), "ceil", 0, c);
		each(h.ceil(), "ceil()", 0, c);
		each(muu::ceil(h), "muu::ceil", 0, c);
	}
	using DS = typename V::delta_scalar_type;
	for (int k = -2; k <= 6; k++)
	{
		const L al = k / 4.0L;
		const auto want = [&](size_t i) {
			const L w = A[i] * (1 - al) + B[i] * al;
			return fl<T> ? w : std::trunc(w);
		};
		if (!fl<T> && !muu::is_signed<T> && (k < 0 || k > 4)) continue;
		const L rel = 4;
		each(V::lerp(a, b, DS(al)), "lerp", rel, want);
		each(muu::lerp(a, b, DS(al)), "muu::lerp", rel, want);
		V c = a;
		V& r = c.lerp(b, DS(al));
		VF_CHECK(&r == &c, "lerp returns itself");
		each(c, "in-place lerp", rel, want);
	}
	// iterators, accessors, streaming
	{
		V c = a;
		const V& cc = c;
		size_t i = 0;
		for (T& e : c) { VF_CHECK(&e == &c[i] && &e == c.data() + i, "iteration order"); i++; }
		VF_CHECK(i == D && size_t(c.end() - c.begin()) == D && cc.begin() == cc.data() && c.cend() - c.cbegin() == ptrdiff_t(D), "iterator distance");
		VF_CHECK(&c.template get<D - 1>() == &c[D - 1] && &cc.template get<0>() == &cc[0], "get");
		using std::begin;
		VF_CHECK(begin(c) == c.begin() && end(cc) == cc.end(), "free begin/end");
	}
}
template <class T, size_t D> static void metric(const std::vector<L>& A, const std::vector<L>& B)
{
	using V = vector<T, D>;
	using DS = typename V::delta_scalar_type;
	using DV = typename V::delta_type;
	const V a = make<V>(A), b = make<V>(B);
	vf::state(1);
	const L u = ulp<DS>();
	L dot = 0, la = 0, lb = 0, dd = 0, mag = 0;
	for (size_t i = 0; i < D; i++) dot += A[i] * B[i], la += A[i] * A[i], lb += B[i] * B[i], dd += (A[i] - B[i]) * (A[i] - B[i]), mag += std::fabs(A[i] * B[i]);
	scal(L(V::dot(a, b)), "dot", dot, 0);
	scal(L(a.dot(b)), "dot", dot, 0);
	scal(L(muu::dot(a, b)), "dot", dot, 0);
	scal(L(V::dot(a, index_tag<D - 1>{})), "dot with an axis", A[D - 1], 0);
	scal(L(V::dot(index_tag<0>{}, a)), "dot with an axis", A[0], 0);
	scal(L(a.dot(index_tag<0>{})), "dot with an axis", A[0], 0);
	scal(L(V::length_squared(a)), "length_squared", la, 0);
	scal(L(a.length_squared()), "length_squared", la, 0);
	scal(L(muu::length_squared(a)), "length_squared", la, 0);
	scal(L(V::length(a)), "length", sqrtl(la), 2 * u * sqrtl(la));
	scal(L(a.length()), "length", sqrtl(la), 2 * u * sqrtl(la));
	scal(L(muu::length(a)), "length", sqrtl(la), 2 * u * sqrtl(la));
	scal(L(V::distance_squared(a, b)), "distance_squared", dd, 0);
	scal(L(a.distance_squared(b)), "distance_squared", dd, 0);
	scal(L(muu::distance_squared(a, b)), "distance_squared", dd, 0);
	scal(L(V::distance(a, b)), "distance", sqrtl(dd), 2 * u * sqrtl(dd));
	scal(L(a.distance(b)), "distance", sqrtl(dd), 2 * u * sqrtl(dd));
	scal(L(muu::distance(a, b)), "distance", sqrtl(dd), 2 * u * sqrtl(dd));
	const bool unit = la == 1;
	VF_CHECK(a.normalized() == unit && V::normalized(a) == unit && muu::normalized(a) == unit, "normalized() of %s", str(a).c_str());
	if constexpr (fl<T>)
		if (la > 0)
		{
			const L n = sqrtl(la);
			const auto want = [&](size_t i) { return A[i] / n; };
			each(V::normalize(a), "normalize", 4, want);
			each(muu::normalize(a), "muu::normalize", 4, want);
			DS len{};
			each(V::normalize(a, len), "normalize(len)", 4, want);
			scal(L(len), "normalize: length", n, 2 * u * n);
			len = DS{};
			each(muu::normalize(a, len), "muu::normalize(len)", 4, want);
			scal(L(len), "muu::normalize: length", n, 2 * u * n);
			V c = a;
			V& r = c.normalize();
			VF_CHECK(&r == &c, "normalize returns itself");
			each(c, "in-place normalize", 4, want);
			len = DS{};
			V d = a;
			d.normalize(len);
			each(d, "in-place normalize(len)", 4, want);
			scal(L(len), "in-place normalize: length", n, 2 * u * n);
			V e = a;
			e.normalize_lensq(a.length_squared());
			each(e, "normalize_lensq", 4, want);
			VF_CHECK(c.normalized() && muu::normalized(c), "a normalized vector is normalized()");
			VF_CHECK(!(c * T(1.25)).normalized() && !(c * T(0.75)).normalized(), "a scaled vector is not normalized()");
			each(V::normalize(c), "normalize is idempotent", 6, want);
		}
	if constexpr (D == 2 || D == 3)
	{
		if (dd > 0)
		{
			const L n = sqrtl(dd);
			const auto want = [&](size_t i) { return (B[i] - A[i]) / n; };
			DS len{};
			each(DV{ V::direction(a, b) }, "direction", 4, want);
			each(DV{ a.direction(b) }, "direction", 4, want);
			each(DV{ muu::direction(a, b) }, "muu::direction", 4, want);
			each(DV{ V::direction(a, b, len) }, "direction(dist)", 4, want);
			scal(L(len), "direction: distance", n, 2 * u * n);
			len = DS{};
			each(DV{ a.direction(b, len) }, "direction(dist)", 4, want);
			scal(L(len), "direction: distance", n, 2 * u * n);
			len = DS{};
			each(DV{ muu::direction(a, b, len) }, "muu::direction(dist)", 4, want);
			scal(L(len), "muu::direction: distance", n, 2 * u * n);
		}
		const L den = sqrtl(la) * sqrtl(lb);
		L c = den == 0 ? 1 : dot / den;
		c = c > 1 ? 1 : c < -1 ? -1 : c;
		const L want = den == 0 ? 0 : acosl(c);
		// acos is ill-conditioned near +-1: sqrt of the rounding error of the intermediate type
		const L it = std::min<L>(u, 0x1p-52L);
		const L tol = 8 * u * (want + 1) + 4 * std::sqrt(it);
		scal(L(V::angle(a, b)), "angle", want, tol);
		scal(L(a.angle(b)), "angle", want, tol);
		scal(L(muu::angle(a, b)), "angle", want, tol);
	}
	if constexpr (D == 3 && muu::is_signed<T>)
	{
		const L C[3] = { A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0] };
		const auto want = [&](size_t i) { return C[i]; };
		each(V::cross(a, b), "cross", 0, want);
		each(a.cross(b), "cross", 0, want);
		each(muu::cross(a, b), "muu::cross", 0, want);
		const L X[3][3] = { { 0, A[2], -A[1] }, { -A[2], 0, A[0] }, { A[1], -A[0], 0 } }; // a x axis
		each(V::cross(a, index_tag<0>{}), "a x X", 0, [&](size_t i) { return X[0][i]; });
		each(V::cross(a, index_tag<1>{}), "a x Y", 0, [&](size_t i) { return X[1][i]; });
		each(V::cross(a, index_tag<2>{}), "a x Z", 0, [&](size_t i) { return X[2][i]; });
		each(a.cross(index_tag<0>{}), "a x X", 0, [&](size_t i) { return X[0][i]; });
		each(a.cross(index_tag<1>{}), "a x Y", 0, [&](size_t i) { return X[1][i]; });
		each(a.cross(index_tag<2>{}), "a x Z", 0, [&](size_t i) { return X[2][i]; });
		each(V::cross(index_tag<0>{}, a), "X x a", 0, [&](size_t i) { return -X[0][i]; });
		each(V::cross(index_tag<1>{}, a), "Y x a", 0, [&](size_t i) { return -X[1][i]; });
		each(V::cross(index_tag<2>{}, a), "Z x a", 0, [&](size_t i) { return -X[2][i]; });
		if (la > 0)
		{
			const auto o = V::orthogonal(a), o2 = a.orthogonal();
			L d1 = 0, l1 = 0, d2 = 0;
			for (size_t i = 0; i < 3; i++) d1 += L(o[i]) * A[i], l1 += L(o[i]) * L(o[i]), d2 += L(o2[i]) * A[i];
			VF_CHECK(std::fabs(d1) <= 16 * u * la && std::fabs(d2) <= 16 * u * la && l1 > 0, "orthogonal of %s is %s", str(a).c_str(), str(o).c_str());
		}
	}
}
// construction and conversion: every (source dimension, target dimension) and scalar pair
template <class T, size_t D, class S, size_t E> static void convert()
{
	vf::state(1);
	vector<S, E> src;
	for (size_t i = 0; i < E; i++) src[i] = static_cast<S>(3 * i + 1);
	const vector<T, D> dst{ src };
	for (size_t i = 0; i < D; i++) VF_CHECK(L(dst[i]) == (i < E ? L(3 * i + 1) : 0), "vector<%zu> from vector<%zu>: component %zu", D, E, i);
	if constexpr (E <= D)
	{
		S raw[E];
		std::array<S, E> arr;
		for (size_t i = 0; i < E; i++) raw[i] = arr[i] = src[i];
		const vector<T, D> v1{ raw }, v2{ arr }, v3{ muu::span<const S, E>{ raw } };
		const vector<T, D> v4(raw, E), v5{ muu::span<const S>{ raw } };
		for (size_t i = 0; i < D; i++)
		{
			const L w = i < E ? L(3 * i + 1) : 0;
			VF_CHECK(L(v1[i]) == w && L(v2[i]) == w && L(v3[i]) == w && L(v4[i]) == w && L(v5[i]) == w, "vector<%zu> from %zu scalars: component %zu", D, E, i);
		}
		if constexpr (E == D)
		{
			const S* p = raw;
			const vector<T, D> v6{ p };
			for (size_t i = 0; i < D; i++) VF_CHECK(L(v6[i]) == L(3 * i + 1), "from a pointer");
		}
		const vector<T, D> b{ static_cast<T>(7) };
		for (size_t i = 0; i < D; i++) VF_CHECK(L(b[i]) == 7, "broadcast");
		// concatenations
		if constexpr (D >= 2 && E < D)
		{
			vector<T, D - E> rest;
			for (size_t i = 0; i < D - E; i++) rest[i] = static_cast<T>(50 + i);
			const vector<T, D> c(src, rest);
			for (size_t i = 0; i < D; i++) VF_CHECK(L(c[i]) == (i < E ? L(3 * i + 1) : L(50 + i - E)), "concatenation %zu + %zu", E, D - E);
			const vector<T, D> d(src, static_cast<T>(9));
			for (size_t i = 0; i < D; i++) VF_CHECK(L(d[i]) == (i < E ? L(3 * i + 1) : i == E ? 9 : 0), "append one to %zu", E);
			if constexpr (E + 2 <= D)
			{
				const vector<T, D> f(src, static_cast<T>(9), 8);
				for (size_t i = 0; i < D; i++) VF_CHECK(L(f[i]) == (i < E ? L(3 * i + 1) : i == E ? 9 : i == E + 1 ? 8 : 0), "append two to %zu", E);
			}
			if constexpr (D - E >= 2)
			{
				const vector<S, 1> one{ static_cast<S>(60) };
				const vector<T, D> g(src, one);
				for (size_t i = 0; i < D; i++) VF_CHECK(L(g[i]) == (i < E ? L(3 * i + 1) : i == E ? 60 : 0), "short concatenation");
			}
		}
	}
	// equality across scalar types
	if constexpr (D == E)
	{
		const vector<T, D> same{ src };
		VF_CHECK(same == src && !(same != src) && src == same, "equality across scalar types");
		for (size_t i = 0; i < D; i++)
		{
			vector<T, D> o = same;
			o[i] = static_cast<T>(o[i] + static_cast<T>(1));
			VF_CHECK(!(o == src) && o != src, "inequality across scalar types at %zu", i);
			if constexpr (fl<T> || fl<S>)
			{
				VF_CHECK(!muu::approx_equal(o, src) && muu::approx_equal(same, src), "approx_equal across scalar types");
				VF_CHECK((muu::approx_equal(o, src, epsilon_type<T, S>(2))), "approx_equal across scalar types with an epsilon");
			}
		}
	}
}
template <class T, size_t D, class S> static void convert_from()
{
	convert<T, D, S, 1>();
	convert<T, D, S, 2>();
	convert<T, D, S, 3>();
	convert<T, D, S, 4>();
	convert<T, D, S, 5>();
	convert<T, D, S, 6>();
}
template <class T> constexpr bool ct_ok()
{
	using V = vector<T, 3>;
	constexpr V a{ static_cast<T>(1), static_cast<T>(2), static_cast<T>(4) }, b{ static_cast<T>(3), static_cast<T>(1), static_cast<T>(2) };
	static_assert(a + b == V{ static_cast<T>(4), static_cast<T>(3), static_cast<T>(6) });
	static_assert(a * b == V{ static_cast<T>(3), static_cast<T>(2), static_cast<T>(8) });
	static_assert(V::dot(a, b) == 13 && a.length_squared() == 21);
	static_assert(a[0] == static_cast<T>(1) && a[1] == static_cast<T>(2) && a[2] == static_cast<T>(4));
	static_assert(V::max(a, b) == V{ static_cast<T>(3), static_cast<T>(2), static_cast<T>(4) });
	static_assert(V{ static_cast<T>(0), static_cast<T>(3), static_cast<T>(4) }.length() == 5);
	static_assert(constants<V>::y_axis[1] == static_cast<T>(1) && constants<V>::y_axis[0] == static_cast<T>(0));
	constexpr vector<T, 5> v5{ static_cast<T>(1), static_cast<T>(2), static_cast<T>(3), static_cast<T>(4), static_cast<T>(5) };
	static_assert(v5[4] == static_cast<T>(5) && v5.sum() == static_cast<T>(15));
	constexpr auto sw = a.template swizzle<2, 0, 0, 1>();
	static_assert(sw[0] == static_cast<T>(4) && sw[1] == static_cast<T>(1) && sw[2] == static_cast<T>(1) && sw[3] == static_cast<T>(2));
	return true;
}
template <class T, size_t D> static void swizzles()
{
	using V = vector<T, D>;
	V v;
	for (size_t i = 0; i < D; i++) v[i] = static_cast<T>(i + 1);
	vf::state(1);
	const auto is = [](const auto& got, std::initializer_list<int> w) {
		size_t i = 0;
		bool ok = true;
		for (int x : w) ok = ok && L(got[i++]) == x;
		return ok && i == std::decay_t<decltype(got)>::dimensions;
	};
	if constexpr (D >= 2) { VF_CHECK(is(v.xy(), { 1, 2 }) && is(v.yx(), { 2, 1 }) && is(v.template swizzle<1, 0, 1>(), { 2, 1, 2 }), "2D swizzles"); }
	if constexpr (D >= 3) { VF_CHECK(is(v.xz(), { 1, 3 }) && is(v.xyz(), { 1, 2, 3 }) && is(v.xyz1(), { 1, 2, 3, 1 }) && is(v.xyz0(), { 1, 2, 3, 0 }) && is(V::template swizzle<2, 1, 0>(v), { 3, 2, 1 }), "3D swizzles"); }
	if constexpr (D >= 4) { VF_CHECK(is(v.template swizzle<3, 2, 1, 0, 3>(), { 4, 3, 2, 1, 4 }), "4D swizzles"); }
	using C = constants<V>;
	for (size_t i = 0; i < D; i++)
	{
		VF_CHECK(L(C::zero[i]) == 0 && L(C::one[i]) == 1 && L(C::ten[i]) == 10 && L(C::one_hundred[i]) == 100, "constants");
		VF_CHECK(C::highest[i] == constants<T>::highest && C::lowest[i] == constants<T>::lowest, "limits");
		VF_CHECK(L(C::x_axis[i]) == (i == 0), "axes");
		if constexpr (D >= 2) { VF_CHECK(L(C::template axis<D - 1>[i]) == (i == D - 1), "axes"); }
		if constexpr (D >= 2) { VF_CHECK(L(C::y_axis[i]) == (i == 1), "y_axis"); }
		if constexpr (D >= 3) { VF_CHECK(L(C::z_axis[i]) == (i == 2), "z_axis"); }
		if constexpr (D >= 4) { VF_CHECK(L(C::w_axis[i]) == (i == 3), "w_axis"); }
		if constexpr (D == 2 || D == 3) { VF_CHECK(L(C::right[i]) == (i == 0) && L(C::up[i]) == (i == 1), "right/up"); }
		if constexpr ((D == 2 || D == 3) && muu::is_signed<T>) { VF_CHECK(L(C::left[i]) == -L(i == 0) && L(C::down[i]) == -L(i == 1), "left/down"); }
		if constexpr (D == 3) { VF_CHECK(L(C::backward[i]) == (i == 2), "backward"); }
		if constexpr (D == 3 && muu::is_signed<T>) { VF_CHECK(L(C::forward[i]) == -L(i == 2), "forward"); }
		if constexpr (D == 2) { VF_CHECK(L(C::screen_right[i]) == (i == 0) && L(C::screen_down[i]) == (i == 1), "screen right/down"); }
		if constexpr (D == 2 && muu::is_signed<T>) { VF_CHECK(L(C::screen_left[i]) == -L(i == 0) && L(C::screen_up[i]) == -L(i == 1), "screen left/up"); }
		if constexpr (fl<T>)
		{
			VF_CHECK(C::pi[i] == constants<T>::pi && C::e[i] == constants<T>::e && C::sqrt_two[i] == constants<T>::sqrt_two, "named constants");
			// a single infinity or NaN anywhere is noticed
			V n = v;
			n[i] = constants<T>::infinity;
			VF_CHECK(infinity_or_nan(n) && n.infinity_or_nan() && V::infinity_or_nan(n), "infinity in component %zu", i);
			n[i] = constants<T>::nan;
			VF_CHECK(infinity_or_nan(n) && n.infinity_or_nan() && !(n == n) && n != n, "NaN in component %zu", i);
		}
	}
	if constexpr (D == 3 && fl<T>)
	{
		const L r = sqrtl(0.5L);
		const auto nr = [&](const V& g, L x, L y, L z) { return near(L(g[0]), x, ulp<T>()) && near(L(g[1]), y, ulp<T>()) && near(L(g[2]), z, ulp<T>()); };
		VF_CHECK(nr(C::forward_left, -r, 0, -r) && nr(C::forward_right, r, 0, -r), "diagonals");
	}
	// structured bindings / tuple protocol
	static_assert(std::tuple_size<V>::value == D && std::is_same_v<typename std::tuple_element<0, V>::type, T>);
	static_assert(sizeof(V) == sizeof(T) * D && std::is_trivially_copyable_v<V>);
}
// the consteval variants, for every grid point given as template arguments
template <class T, int X, int Y, int Z> static void consteval_one()
{
	if constexpr (muu::is_signed<T> || (X >= 0 && Y >= 0 && Z >= 0))
	{
		using V = vector<T, 3>;
		using W = vector<T, 2>;
		using U = vector<T, 1>;
		using DS = typename V::delta_scalar_type;
		vf::state(1);
		constexpr V v{ static_cast<T>(X), static_cast<T>(Y), static_cast<T>(Z) };
		constexpr W w{ static_cast<T>(X), static_cast<T>(Y) };
		constexpr U x{ static_cast<T>(X) };
		constexpr V o{ static_cast<T>(1), static_cast<T>(2), static_cast<T>(1) };
		const L u = ulp<DS>(), l3 = sqrtl(L(X * X + Y * Y + Z * Z)), l2 = sqrtl(L(X * X + Y * Y)), l1 = std::fabs(L(X));
		constexpr auto a = V::consteval_length(v);
		constexpr auto b = W::consteval_length(w);
		constexpr auto c = U::consteval_length(x);
		scal(L(a), "consteval_length (3D)", l3, 2 * u * l3);
		scal(L(b), "consteval_length (2D)", l2, 2 * u * l2);
		scal(L(c), "consteval_length (1D)", l1, 2 * u * l1);
		const L d3 = sqrtl(L((X - 1) * (X - 1) + (Y - 2) * (Y - 2) + (Z - 1) * (Z - 1)));
		constexpr auto d = V::consteval_distance(v, o);
		if (muu::is_signed<T>) scal(L(d), "consteval_distance", d3, 2 * u * d3);
		if constexpr (fl<T> && (X || Y || Z))
		{
			constexpr auto n = V::consteval_normalize(v);
			const L C[3] = { L(X), L(Y), L(Z) };
			each(n, "consteval_normalize", 4, [&](size_t i) { return C[i] / l3; });
			if constexpr (X != 0)
			{
				constexpr auto n1 = U::consteval_normalize(x);
				each(n1, "consteval_normalize (1D)", 0, [&](size_t) { return L(X > 0 ? 1 : -1); });
			}
		}
	}
}
template <class T, int... I> static void consteval_all(std::integer_sequence<int, I...>)
{
	(consteval_one<T, I % 4 * 3 - 5, I / 4 % 4 - 2, I / 16 * 2 - 3>(), ...);
}
template <class T, size_t D> static void run(const char* name, const char* mname, bool want_arith, bool want_metric)
{
	const auto dom = domain<T>(D);
	const int n = int(dom.size());
	uint64_t total = 1;
	for (size_t i = 0; i < D; i++) total *= uint64_t(n);
	for (int pass = 0; pass < 2; pass++)
	{
		if (pass == 0 ? !want_arith : !want_metric) continue;
		if (!vf::group(pass ? mname : name)) continue;
		if (pass == 0 && mine_()) { vf::at(-1); swizzles<T, D>(); }
		for (uint64_t x = 0; x < total; x++)
		{
			if (!mine_()) continue;
			for (uint64_t y = 0; y < total; y++)
			{
				vf::at(int64_t(x), int64_t(y), int64_t(D), int64_t(sizeof(T)));
				std::vector<L> A(D), B(D);
				uint64_t p = x, q = y;
				for (size_t i = 0; i < D; i++) A[i] = dom[p % uint64_t(n)], B[i] = dom[q % uint64_t(n)], p /= uint64_t(n), q /= uint64_t(n);
				if (pass == 0) arith<T, D>(A, B);
				else metric<T, D>(A, B);
			}
		}
	}
}
template <class T> static void all(const char* const (&n)[2], bool a, bool m)
{
	run<T, 1>(n[0], n[1], a, m);
	run<T, 2>(n[0], n[1], a, m);
	run<T, 3>(n[0], n[1], a, m);
	run<T, 4>(n[0], n[1], a, m);
	if (vf::thorough || sizeof(T) == 4) run<T, 5>(n[0], n[1], a, m);
	if (vf::thorough) run<T, 6>(n[0], n[1], a, m);
	if (a && vf::group("conversions") && mine_())
	{
		vf::at(int64_t(sizeof(T)), fl<T>);
		[[maybe_unused]] constexpr bool c = ct_ok<T>();
#ifndef NO_CT
		consteval_all<T>(std::make_integer_sequence<int, 64>{});
#endif
#define FROM(S) convert_from<T, 1, S>(); convert_from<T, 2, S>(); convert_from<T, 3, S>(); convert_from<T, 4, S>(); convert_from<T, 5, S>(); convert_from<T, 6, S>();
		FROM(int)
		FROM(float)
		FROM(double)
		FROM(unsigned char)
	}
}
int main(int argc, char** argv)
{
	vf::init(argc, argv);
	const std::string part = vf::args.empty() ? "all" : vf::args[0];
	const bool a = part != "G02", m = part != "G01";
#if GRP == 0 || GRP == 1
	all<int>({ "int", "int_metric" }, a, m);
	all<float>({ "float", "float_metric" }, a, m);
#endif
#if GRP == 0 || GRP == 2
	all<double>({ "double", "double_metric" }, a, m);
	all<signed char>({ "schar", "schar_metric" }, a, m);
#endif
#if GRP == 0 || GRP == 3
	all<unsigned>({ "unsigned", "unsigned_metric" }, a, m);
	all<unsigned char>({ "uchar", "uchar_metric" }, a, m);
#endif
#if GRP == 0 || GRP == 4
	all<short>({ "short", "short_metric" }, a, m);
	all<long long>({ "llong", "llong_metric" }, a, m);
#endif
#if GRP == 0 || GRP == 5
	all<half>({ "half", "half_metric" }, a, m);
	all<unsigned long>({ "ulong", "ulong_metric" }, a, m);
#endif
#if GRP == 0 || GRP == 6
	all<long double>({ "ldouble", "ldouble_metric" }, a, m);
#endif
	return vf::finish();
}
