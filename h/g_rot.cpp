// G04 / G05: quaternions, axis-angle rotations, euler angles and rotation matrices over integer lattices of quaternions,
// axes and multiples of 15 degrees, against long double rotation matrices.
#include "muu/half.h"
#include "muu/matrix.h"
#include "muu/quaternion.h"
#include "vf.h"
#include <cmath>
#include <sstream>
#include <algorithm>
#include <tuple>
using namespace muu;
using L = long double;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
static const L PI = 3.14159265358979323846264338327950288L;
template <class T> constexpr L ulp()
{
	if constexpr (sizeof(T) == 2) return 0x1p-10L;
	else return L(std::numeric_limits<T>::epsilon());
}
static bool near(L a, L b, L tol) { return std::fabs(a - b) <= tol; } // false for NaN

// ---- reference algebra
struct V3
{
	L x[3];
	L& operator[](int i) { return x[i]; }
	L operator[](int i) const { return x[i]; }
};
static L dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { return { { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] } }; }
static V3 unit(V3 a) { const L l = sqrtl(dot(a, a)); return { { a[0] / l, a[1] / l, a[2] / l } }; }
struct M3
{
	L m[3][3];
};
static M3 mul(const M3& a, const M3& b)
{
	M3 r{};
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			for (int k = 0; k < 3; k++) r.m[i][j] += a.m[i][k] * b.m[k][j];
	return r;
}
static V3 mul(const M3& a, V3 v)
{
	V3 r{};
	for (int i = 0; i < 3; i++)
		for (int k = 0; k < 3; k++) r[i] += a.m[i][k] * v[k];
	return r;
}
// Rodrigues
static M3 rot(V3 axis, L angle)
{
	axis	  = unit(axis);
	const L c = cosl(angle), s = sinl(angle);
	M3 r{};
	const L k[3][3] = { { 0, -axis[2], axis[1] }, { axis[2], 0, -axis[0] }, { -axis[1], axis[0], 0 } };
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) r.m[i][j] = (i == j) * c + s * k[i][j] + (1 - c) * axis[i] * axis[j];
	return r;
}
struct Q4
{
	L s, x, y, z;
};
static L norm(Q4 q) { return sqrtl(q.s * q.s + q.x * q.x + q.y * q.y + q.z * q.z); }
static Q4 scale(Q4 q, L k) { return { q.s * k, q.x * k, q.y * k, q.z * k }; }
static Q4 unit(Q4 q) { return scale(q, 1 / norm(q)); }
static L dot(Q4 a, Q4 b) { return a.s * b.s + a.x * b.x + a.y * b.y + a.z * b.z; }
static Q4 conj(Q4 a) { return { a.s, -a.x, -a.y, -a.z }; }
static Q4 mul(Q4 a, Q4 b)
{
	return { a.s * b.s - a.x * b.x - a.y * b.y - a.z * b.z, a.s * b.x + a.x * b.s + a.y * b.z - a.z * b.y, a.s * b.y - a.x * b.z + a.y * b.s + a.z * b.x, a.s * b.z + a.x * b.y - a.y * b.x + a.z * b.s };
}
// the rotation matrix of any non-zero quaternion: the sandwich product on the basis vectors
static M3 rot(Q4 q)
{
	q = unit(q);
	M3 r{};
	const Q4 e[3] = { { 0, 1, 0, 0 }, { 0, 0, 1, 0 }, { 0, 0, 0, 1 } };
	for (int j = 0; j < 3; j++)
	{
		const Q4 p = mul(mul(q, e[j]), conj(q));
		r.m[0][j] = p.x, r.m[1][j] = p.y, r.m[2][j] = p.z;
	}
	return r;
}
// yaw, then pitch, then roll, each about the aircraft's own axes (up = +y, right = +x, forward = -z)
static M3 euler(L yaw, L pitch, L roll)
{
	return mul(mul(rot(V3{ { 0, 1, 0 } }, -yaw), rot(V3{ { 1, 0, 0 } }, pitch)), rot(V3{ { 0, 0, 1 } }, -roll));
}
static L diff(const M3& a, const M3& b)
{
	L d = 0;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
		{
			const L e = std::fabs(a.m[i][j] - b.m[i][j]);
			if (!(e <= d)) d = e;
		}
	return d; // NaN propagates (never <= d)
}

// ---- conversions
template <class T> static Q4 ref(const quaternion<T>& q) { return { L(q.s), L(q.v.x), L(q.v.y), L(q.v.z) }; }
template <class T> static quaternion<T> lib(Q4 q) { return { static_cast<T>(q.s), static_cast<T>(q.x), static_cast<T>(q.y), static_cast<T>(q.z) }; }
template <class T> static V3 ref(const vector<T, 3>& v) { return { { L(v.x), L(v.y), L(v.z) } }; }
template <class T> static vector<T, 3> lib(V3 v) { return { static_cast<T>(v[0]), static_cast<T>(v[1]), static_cast<T>(v[2]) }; }
template <class M> static M3 refm(const M& m)
{
	M3 r{};
	for (size_t i = 0; i < 3; i++)
		for (size_t j = 0; j < 3; j++) r.m[i][j] = L(m(i, j));
	return r;
}
template <class T, size_t R, size_t C> static matrix<T, R, C> libm(const M3& m)
{
	matrix<T, R, C> r{ static_cast<T>(0) };
	for (size_t i = 0; i < R; i++)
		for (size_t j = 0; j < C; j++) r(i, j) = static_cast<T>(i < 3 && j < 3 ? m.m[i][j] : L(i == j ? 1 : j == 3 ? 5 + i : 7));
	return r;
}
template <class M> static bool affine_rest(const M& m)
{
	for (size_t i = 0; i < M::rows; i++)
		for (size_t j = 0; j < M::columns; j++)
			if ((i > 2 || j > 2) && L(m(i, j)) != L(i == j)) return false;
	return true;
}
static const char* str(Q4 q)
{
	static char b[4][160];
	static int n;
	n = (n + 1) & 3;
	snprintf(b[n], sizeof(b[n]), "{%.9Lg; %.9Lg, %.9Lg, %.9Lg}", q.s, q.x, q.y, q.z);
	return b[n];
}
static const char* str(V3 v)
{
	static char b[4][160];
	static int n;
	n = (n + 1) & 3;
	snprintf(b[n], sizeof(b[n]), "{%.9Lg, %.9Lg, %.9Lg}", v[0], v[1], v[2]);
	return b[n];
}
static L qdist(Q4 a, Q4 b)
{
	L d = 0;
	for (L e : { a.s - b.s, a.x - b.x, a.y - b.y, a.z - b.z })
		if (!(std::fabs(e) <= d)) d = std::fabs(e);
	return d;
}
static bool qnear(Q4 a, Q4 b, L tol) { return qdist(a, b) <= tol; }
static bool same_rotation(Q4 a, Q4 b, L tol) { return qnear(a, b, tol) || qnear(a, scale(b, -1), tol); }

template <class F> static void lattice(int n, F&& f)
{
	for (int s = -n; s <= n; s++)
		for (int x = -n; x <= n; x++)
			for (int y = -n; y <= n; y++)
				for (int z = -n; z <= n; z++) f(Q4{ L(s), L(x), L(y), L(z) });
}
template <class F> static void lattice3(int n, F&& f)
{
	for (int x = -n; x <= n; x++)
		for (int y = -n; y <= n; y++)
			for (int z = -n; z <= n; z++)
				if (x || y || z) f(V3{ { L(x), L(y), L(z) } });
}

//---------------------------------------------------------------------------------------------------------------- G04
template <class T> static void algebra(const char* name)
{
	if (!vf::group(name)) return;
	using Q = quaternion<T>;
	using V = vector<T, 3>;
	const int n = vf::thorough ? 2 : 1;
	const L e = 8 * ulp<T>();
	lattice(2, [&](Q4 a) {
		if (!mine_()) return;
		const Q qa = lib<T>(a);
		vf::at(int64_t(a.s), int64_t(a.x), int64_t(a.y), int64_t(a.z));
		vf::state(1);
		vf::trans(20);
		const bool z0 = norm(a) == 0;
		VF_CHECK(qa.zero() == z0 && Q::zero(qa) == z0, "zero(%s)", str(a));
		VF_CHECK(qa.approx_zero() == z0 && Q::approx_zero(qa) == z0 && muu::approx_zero(qa) == z0, "approx_zero(%s)", str(a));
		VF_CHECK(!qa.infinity_or_nan() && !Q::infinity_or_nan(qa) && !muu::infinity_or_nan(qa), "infinity_or_nan(%s)", str(a));
		VF_CHECK(qnear(ref(qa.conjugate()), conj(a), 0) && qnear(ref(Q::conjugate(qa)), conj(a), 0), "conjugate(%s)", str(a));
		const bool n1 = norm(a) == 1;
		VF_CHECK(qa.normalized() == n1 && Q::normalized(qa) == n1 && muu::normalized(qa) == n1, "normalized(%s)", str(a));
		VF_CHECK((qa.template get<0>() == qa.s && qa.template get<1>() == qa.v && qa.data() == &qa.s && qa.data()[1] == qa.v.x && qa.data()[2] == qa.v.y && qa.data()[3] == qa.v.z), "get / data");
		const auto& [bs, bv] = qa;
		VF_CHECK(bs == qa.s && bv == qa.v, "structured binding");
		const Q qv{ qa.s, qa.v };
		VF_CHECK(qv == qa && !(qv != qa), "construction from scalar and vector");
		VF_CHECK(qnear(ref(quaternion<double>{ qa }), a, 0) && qnear(ref(quaternion<half>{ qa }), a, 0) && qnear(ref(quaternion<float>{ qa }), a, 0) && qnear(ref(quaternion<long double>{ qa }), a, 0), "conversions of %s", str(a));
		if (!z0)
		{
			const Q4 u = unit(a);
			Q q = qa;
			Q& r = q.normalize();
			VF_CHECK(&r == &q && qnear(ref(q), u, e) && qnear(ref(Q::normalize(qa)), u, e) && qnear(ref(muu::normalize(qa)), u, e), "normalize(%s) = %s", str(a), str(ref(q)));
			VF_CHECK(q.normalized(), "a normalized quaternion is not normalized()");
		}
		// every component matters for NaN, infinity, equality and approximate equality
		for (int i = 0; i < 4; i++)
		{
			Q q = qa;
			q.data()[i] = static_cast<T>(std::numeric_limits<float>::infinity());
			VF_CHECK(q.infinity_or_nan() && muu::infinity_or_nan(q), "infinite component %d", i);
			q.data()[i] = static_cast<T>(std::numeric_limits<float>::quiet_NaN());
			VF_CHECK(q.infinity_or_nan() && Q::infinity_or_nan(q), "NaN component %d", i);
			for (int sg = -1; sg <= 1; sg += 2)
			{
				q = qa;
				q.data()[i] = static_cast<T>(L(q.data()[i]) + sg * 0.5L);
				VF_CHECK(!(q == qa) && q != qa && !q.approx_equal(qa) && !Q::approx_equal(qa, q) && !muu::approx_equal(q, qa), "a difference in component %d goes unnoticed", i);
				VF_CHECK((q.approx_equal(qa, static_cast<T>(0.625)) && Q::approx_equal(qa, q, static_cast<T>(0.625)) && !q.approx_equal(qa, static_cast<T>(0.375))), "epsilon of approx_equal, component %d", i);
			}
		}
		VF_CHECK(qa.approx_equal(qa) && muu::approx_equal(qa, qa), "approx_equal to itself");
		VF_CHECK(quaternion<float>(qa) == qa && quaternion<double>(qa) == qa && qa == quaternion<double>(qa) && !(quaternion<double>(qa) != qa), "mixed-type equality");
		// pairs
		lattice(n, [&](Q4 b) {
			const Q qb = lib<T>(b);
			vf::trans(4);
			const Q4 p = mul(a, b);
			VF_CHECK(qnear(ref(qa * qb), p, 0), "%s * %s = %s, should be %s", str(a), str(b), str(ref(qa * qb)), str(p));
			Q m = qa;
			Q& r = m *= qb;
			VF_CHECK(&r == &m && qnear(ref(m), p, 0), "*=");
			VF_CHECK(L(qa.dot(qb)) == dot(a, b) && L(Q::dot(qa, qb)) == dot(a, b) && L(muu::dot(qa, qb)) == dot(a, b), "dot");
			const bool eq = qdist(a, b) == 0;
			VF_CHECK((qa == qb) == eq && (qa != qb) == !eq, "==");
		});
		Q m = qa;
		m *= m;
		VF_CHECK(qnear(ref(m), mul(a, a), 0), "q *= q");
		// rotation of vectors by unit quaternions
		if (!z0)
		{
			const Q4 u = unit(a);
			const Q qu = lib<T>(u);
			const M3 R = rot(a);
			lattice3(2, [&](V3 v) {
				vf::trans(2);
				const V3 w = mul(R, v);
				const V g1 = qu * lib<T>(v), g2 = lib<T>(v) * qu;
				for (int i = 0; i < 3; i++) { VF_CHECK(near(L(g1[size_t(i)]), w[i], 8 * e) && near(L(g2[size_t(i)]), w[i], 8 * e), "%s rotates %s to %s, should be %s", str(u), str(v), str(ref(g1)), str(w)); }
			});
		}
	});
	VF_CHECK(qnear(ref(constants<Q>::identity), { 1, 0, 0, 0 }, 0) && qnear(ref(constants<Q>::zero), { 0, 0, 0, 0 }, 0), "constants");
	static_assert(sizeof(Q) == 4 * sizeof(T) && std::tuple_size<Q>::value == 2);
	static_assert(std::is_same_v<std::tuple_element_t<0, Q>, T> && std::is_same_v<std::tuple_element_t<1, Q>, V>);
}
template <class T> static void interpolation(const char* name)
{
	if (!vf::group(name)) return;
	using Q = quaternion<T>;
	const L e = 64 * ulp<T>();
	const int n = vf::thorough && sizeof(T) > 2 ? 2 : 1;
	lattice(2, [&](Q4 a) {
		if (norm(a) == 0 || !mine_()) return;
		const Q4 u = unit(a);
		vf::at(int64_t(a.s), int64_t(a.x), int64_t(a.y), int64_t(a.z));
		vf::state(1);
		lattice(n, [&](Q4 b) {
			if (norm(b) == 0) return;
			const Q4 w = unit(b);
			L d = dot(u, w);
			if (std::fabs(d) < 1e-6L) return; // opposite orientations: both directions are equally short
			const Q4 t = d < 0 ? scale(w, -1) : w;
			d = std::min(1.0L, std::fabs(d));
			const L th = acosl(d), sn = sinl(th);
			for (int k = -2; k <= 6; k++)
			{
				vf::trans(3);
				const L al = k / 4.0L;
				const Q qu = lib<T>(u), qw = lib<T>(w);
				Q4 want = u;
				if (sn > 1e-9L)
				{
					const L s0 = sinl((1 - al) * th) / sn, s1 = sinl(al * th) / sn;
					want = { u.s * s0 + t.s * s1, u.x * s0 + t.x * s1, u.y * s0 + t.y * s1, u.z * s0 + t.z * s1 };
				}
				const L tol = e / std::max(sn, 0.03L) + (d > 0.999L ? 1e-5L : 0);
				const Q got = Q::slerp(qu, qw, static_cast<T>(al)), got2 = muu::slerp(qu, qw, static_cast<T>(al));
				Q g3 = qu;
				Q& r = g3.slerp(qw, static_cast<T>(al));
				VF_CHECK(same_rotation(ref(got), want, tol), "slerp(%s, %s, %Lg) = %s, should be %s", str(u), str(w), al, str(ref(got)), str(want));
				VF_CHECK(same_rotation(ref(got2), want, tol) && same_rotation(ref(g3), want, tol) && &r == &g3, "slerp overloads");
			}
		});
		// scaling a rotation
		for (int k = -6; k <= 6; k++)
		{
			vf::trans(2);
			const L f = k / 2.0L, len = sqrtl(u.x * u.x + u.y * u.y + u.z * u.z);
			const L cor = u.s < 0 ? -1 : 1, half_angle = atan2l(len, u.s * cor) * f;
			const V3 ax = len > 0 ? V3{ { u.x / len * cor, u.y / len * cor, u.z / len * cor } } : V3{ { 1, 0, 0 } };
			const Q4 want = { cosl(half_angle), ax[0] * sinl(half_angle), ax[1] * sinl(half_angle), ax[2] * sinl(half_angle) };
			const Q qu = lib<T>(u);
			const Q g1 = qu * static_cast<T>(f), g2 = static_cast<T>(f) * qu;
			Q g3 = qu;
			Q& r = g3 *= static_cast<T>(f);
			const bool flip = u.s == 0 && same_rotation(ref(g1), conj(want), e); // a half turn may be scaled either way
			VF_CHECK(same_rotation(ref(g1), want, e) || flip, "%s * %Lg = %s, should be %s", str(u), f, str(ref(g1)), str(want));
			for (const Q& g : { g2, g3 })
			{
				VF_CHECK(same_rotation(ref(g), want, e) || (u.s == 0 && same_rotation(ref(g), conj(want), e)), "scalar multiplication forms differ");
			}
			VF_CHECK(&r == &g3, "operator *= does not return *this");
		}
	});
}

//---------------------------------------------------------------------------------------------------------------- G05
template <class T> static void matrices(const char* name)
{
	if (!vf::group(name)) return;
	using Q = quaternion<T>;
	const L e = 16 * ulp<T>();
	lattice(vf::thorough ? 5 : 3, [&](Q4 a) {
		if (norm(a) == 0 || !mine_()) return;
		vf::at(int64_t(a.s), int64_t(a.x), int64_t(a.y), int64_t(a.z));
		vf::state(1);
		vf::trans(12);
		const Q4 u = unit(a);
		const Q q = lib<T>(u);
		const M3 R = rot(a);
		const auto m33 = matrix<T, 3, 3>::from_quaternion(q);
		const auto m34 = matrix<T, 3, 4>::from_quaternion(q);
		const auto m44 = matrix<T, 4, 4>::from_quaternion(q);
		VF_CHECK(diff(refm(m33), R) <= e && diff(refm(m34), R) <= e && diff(refm(m44), R) <= e && affine_rest(m34) && affine_rest(m44), "matrix::from_quaternion(%s)", str(u));
		// back again, with arbitrary values outside the rotation part
		const auto t33 = libm<T, 3, 3>(R);
		const auto t34 = libm<T, 3, 4>(R);
		const auto t44 = libm<T, 4, 4>(R);
		const L eq = sizeof(T) == 2 ? 8 * e : e; // the matrix itself is rounded
		for (const Q& g : { Q::from_rotation(t33), Q::from_rotation(t34), Q::from_rotation(t44), Q(t33), Q(t34), Q(t44) }) { VF_CHECK(same_rotation(ref(g), u, 4 * eq), "quaternion::from_rotation(matrix of %s) = %s", str(u), str(ref(g))); }
		VF_CHECK(same_rotation(ref(Q::from_rotation(m33)), u, 4 * eq), "quaternion -> matrix -> quaternion");
		// axis-angle extraction
		for (int sp = 0; sp < 2; sp++)
		{
			const auto aa = sp ? q.to_axis_angle() : q.to_axis_angle(false);
			const auto ab = sp ? Q::to_axis_angle(q) : Q::to_axis_angle(q, false);
			VF_CHECK(diff(rot(ref(ab.axis), L(ab.angle)), R) <= 4 * e && near(dot(ref(ab.axis), ref(ab.axis)), 1, e), "to_axis_angle overloads");
			const V3 ax = ref(aa.axis);
			const L an = L(aa.angle);
			VF_CHECK(near(dot(ax, ax), 1, e), "to_axis_angle(%s): axis %s is not a unit vector", str(u), str(ax));
			VF_CHECK(an >= -e && (sp ? an <= PI + 4 * e : an <= 2 * PI + 4 * e), "to_axis_angle(%s): angle %Lg out of range", str(u), an);
			VF_CHECK(diff(rot(ax, an), R) <= 4 * e, "to_axis_angle(%s, %d) = %s by %Lg is another rotation", str(u), sp, str(ax), an);
			const Q4 back = { cosl(an / 2), sinl(an / 2) * ax[0], sinl(an / 2) * ax[1], sinl(an / 2) * ax[2] };
			if (!sp) { VF_CHECK(qnear(back, u, 4 * e), "to_axis_angle(%s, false) does not convert back", str(u)); }
		}
		// euler extraction; scaled quaternions describe the same rotation
		for (int sc = 0; sc < 2; sc++)
		{
			const Q qs = sc ? lib<T>(a) : q;
			const L sinp = -R.m[1][2]; // sine of the pitch
			// asin is ill-conditioned there, and within about 0.6 degrees of vertical the roll is folded into the yaw
			const L tol = std::fabs(sinp) > 0.9998L ? 0.03L : 8 * e / sqrtl(1 - sinp * sinp);
			for (const auto& eu : { Q::to_euler(qs), qs.to_euler() })
			{
			VF_CHECK(std::fabs(L(eu.pitch)) <= PI / 2 + e && std::fabs(L(eu.yaw)) <= 2 * PI + 4 * e && std::fabs(L(eu.roll)) <= PI + 4 * e, "to_euler(%s) out of range", str(ref(qs)));
			const L dd = diff(euler(L(eu.yaw), L(eu.pitch), L(eu.roll)), R);
			VF_CHECK(dd <= tol, "to_euler(%s) = (%Lg, %Lg, %Lg) is another rotation (off by %Lg)", str(ref(qs)), L(eu.yaw), L(eu.pitch), L(eu.roll), dd);
			}
		}
	});
}
template <class T> static void axis_angles(const char* name)
{
	if (!vf::group(name)) return;
	using Q = quaternion<T>;
	const L e = 16 * ulp<T>();
	lattice3(vf::thorough ? 3 : 2, [&](V3 v) {
		if (!mine_()) return;
		for (int k = -48; k <= 48; k++)
		{
			vf::at(int64_t(v[0]), int64_t(v[1]), int64_t(v[2]), k);
			vf::state(1);
			vf::trans(9);
			const L an = L(static_cast<T>(k * PI / 12));
			const V3 ax = unit(v);
			const M3 R = rot(ax, an);
			const vector<T, 3> tx = lib<T>(ax);
			const axis_angle<T> aa{ tx, static_cast<T>(an) };
			const Q4 want = { cosl(an / 2), sinl(an / 2) * ax[0], sinl(an / 2) * ax[1], sinl(an / 2) * ax[2] };
			for (const Q& g : { Q::from_axis_angle(tx, static_cast<T>(an)), Q::from_axis_angle(aa), Q(aa) }) { VF_CHECK(qnear(ref(g), want, e), "from_axis_angle(%s, %Lg) = %s", str(ax), an, str(ref(g))); }
			const auto m33 = matrix<T, 3, 3>::from_axis_angle(tx, static_cast<T>(an));
			const auto m34 = matrix<T, 3, 4>::from_axis_angle(tx, static_cast<T>(an));
			const auto m44 = matrix<T, 4, 4>::from_axis_angle(tx, static_cast<T>(an));
			VF_CHECK(diff(refm(m33), R) <= 2 * e && diff(refm(m34), R) <= 2 * e && diff(refm(m44), R) <= 2 * e && affine_rest(m34) && affine_rest(m44), "matrix::from_axis_angle(%s, %Lg)", str(ax), an);
			const auto n33 = matrix<T, 3, 3>::from_axis_angle(aa);
			const auto n34 = matrix<T, 3, 4>::from_axis_angle(aa);
			const auto n44 = matrix<T, 4, 4>::from_axis_angle(aa);
			VF_CHECK(diff(refm(n33), R) <= 2 * e && diff(refm(n34), R) <= 2 * e && diff(refm(n44), R) <= 2 * e && affine_rest(n34) && affine_rest(n44), "matrix::from_axis_angle overloads");
		}
	});
}
template <class T> static void eulers(const char* name)
{
	if (!vf::group(name)) return;
	using Q = quaternion<T>;
	const L e = 24 * ulp<T>();
	const int step = vf::thorough ? 15 : 30;
	for (int y = -360; y <= 360; y += step)
		for (int p = -360; p <= 360; p += step)
		{
			if (!mine_()) continue;
			for (int r = -360; r <= 360; r += step)
			{
				vf::at(y, p, r);
				vf::state(1);
				vf::trans(8);
				const T ty = static_cast<T>(y * PI / 180), tp = static_cast<T>(p * PI / 180), tr = static_cast<T>(r * PI / 180);
				const M3 R = euler(L(ty), L(tp), L(tr));
				const euler_angles<T> ea{ ty, tp, tr };
				const Q q = Q::from_euler(ty, tp, tr);
				VF_CHECK(near(norm(ref(q)), 1, e), "from_euler(%d, %d, %d) is not a unit quaternion", y, p, r);
				VF_CHECK(diff(rot(ref(q)), R) <= 2 * e, "from_euler(%d, %d, %d degrees) = %s is another rotation than yaw, pitch, roll about the local axes", y, p, r, str(ref(q)));
				VF_CHECK(qnear(ref(Q::from_euler(ea)), ref(q), 2 * e) && qnear(ref(Q(ea)), ref(q), 2 * e), "from_euler overloads");
				const auto m33 = matrix<T, 3, 3>::from_euler(ty, tp, tr);
				const auto m34 = matrix<T, 3, 4>::from_euler(ty, tp, tr);
				const auto m44 = matrix<T, 4, 4>::from_euler(ty, tp, tr);
				VF_CHECK(diff(refm(m33), R) <= 3 * e && diff(refm(m34), R) <= 3 * e && diff(refm(m44), R) <= 3 * e && affine_rest(m34) && affine_rest(m44), "matrix::from_euler(%d, %d, %d)", y, p, r);
				const auto n33 = matrix<T, 3, 3>::from_euler(ea);
				const auto n34 = matrix<T, 3, 4>::from_euler(ea);
				const auto n44 = matrix<T, 4, 4>::from_euler(ea);
				VF_CHECK(diff(refm(n33), R) <= 3 * e && diff(refm(n34), R) <= 3 * e && diff(refm(n44), R) <= 3 * e && affine_rest(n34) && affine_rest(n44), "matrix::from_euler overloads");
				// inside the principal range the angles come back
				if (std::abs(y) < 180 && std::abs(r) < 180 && std::abs(p) < 89)
				{
					const auto b = q.to_euler();
					const L tol = 4 * e / cosl(p * PI / 180);
					VF_CHECK(near(L(b.yaw), L(ty), tol) && near(L(b.pitch), L(tp), tol) && near(L(b.roll), L(tr), tol), "to_euler(from_euler(%d, %d, %d)) = (%Lg, %Lg, %Lg) radians", y, p, r, L(b.yaw), L(b.pitch), L(b.roll));
				}
			}
		}
}
template <class T> static void between(const char* name)
{
	if (!vf::group(name)) return;
	using Q = quaternion<T>;
	const L e = 32 * ulp<T>();
	const int n = vf::thorough ? 3 : 2;
	lattice3(n, [&](V3 a) {
		if (!mine_()) return;
		lattice3(n, [&](V3 b) {
			vf::at(int64_t(a[0]), int64_t(a[1]), int64_t(a[2]), int64_t(b[0]), int64_t(b[1]), int64_t(b[2]));
			vf::state(1);
			vf::trans(2);
			for (int un = 0; un < 2; un++) // unit directions, and directions of any length
			{
				const V3 ua = unit(a), ub = unit(b);
				const Q q = un ? Q::from_rotation(lib<T>(ua), lib<T>(ub)) : Q::from_rotation(lib<T>(a), lib<T>(b));
				const Q4 rq = ref(q);
				VF_CHECK(near(norm(rq), 1, e), "from_rotation(%s, %s) = %s is not a unit quaternion", str(a), str(b), str(rq));
				const V3 g = mul(rot(rq), ua);
				const L c = dot(ua, ub);
				const L tol = e / sqrtl(std::max(1 + c, 0.02L)) + (c < -0.99L ? e : 0);
				bool ok = true;
				for (int i = 0; i < 3; i++) ok = ok && near(g[i], ub[i], tol);
				VF_CHECK(ok, "from_rotation(%s, %s) maps the first direction to %s, should be %s", un ? str(ua) : str(a), un ? str(ub) : str(b), str(g), str(ub));
				VF_CHECK(near(std::fabs(rq.s), sqrtl(std::max(0.0L, (1 + c) / 2)), c < -0.99L ? 0.001L + tol : tol), "from_rotation(%s, %s) is not the shortest rotation", str(a), str(b));
			}
		});
	});
}
// every token of a stream that is a number
template <class Ch, class X> static std::vector<L> numbers(const X& x)
{
	std::basic_ostringstream<Ch> ss;
	ss << x;
	std::string s;
	for (auto c : ss.str()) s += char(c);
	std::vector<L> out;
	for (size_t i = 0; i < s.size();)
	{
		if ((s[i] >= '0' && s[i] <= '9') || (s[i] == '-' && i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '9'))
		{
			char* en;
			out.push_back(strtold(s.c_str() + i, &en));
			i = size_t(en - s.c_str());
		}
		else i++;
	}
	return out;
}
template <class T> static void holders(const char* name)
{
	if (!vf::group(name) || !mine_()) return;
	vf::state(1);
	const T t1 = static_cast<T>(1), t2 = static_cast<T>(-2), t3 = static_cast<T>(3), t4 = static_cast<T>(4);
	const auto bad = [](int k) { return k ? static_cast<T>(std::numeric_limits<float>::infinity()) : static_cast<T>(std::numeric_limits<float>::quiet_NaN()); };
	using AA = axis_angle<T>;
	using EU = euler_angles<T>;
	using V = vector<T, 3>;
	using W = vector<T, 4>;
	{
		const AA a{ V{ t1, t2, t3 }, t4 }, b{ W{ t1, t2, t3, t4 } }, c{ V{ t1, t2, t3 } };
		VF_CHECK(ref(a.axis)[0] == 1 && ref(a.axis)[1] == -2 && ref(a.axis)[2] == 3 && L(a.angle) == 4, "axis_angle members");
		VF_CHECK(b.axis == a.axis && b.angle == a.angle, "axis_angle from a vec4");
		VF_CHECK(c.axis == a.axis && L(c.angle) == 0, "axis_angle from an axis");
		const auto ad = axis_angle<double>{ a };
		VF_CHECK(L(ad.axis.x) == 1 && L(ad.axis.y) == -2 && L(ad.axis.z) == 3 && L(ad.angle) == 4, "axis_angle conversion");
		VF_CHECK((static_cast<W>(a) == W{ t1, t2, t3, t4 }) && (static_cast<const V&>(a) == a.axis), "axis_angle to vectors");
		VF_CHECK(!a.infinity_or_nan() && !muu::infinity_or_nan(a), "axis_angle finite");
		for (int i = 0; i < 4; i++)
			for (int k = 0; k < 2; k++)
			{
				W w{ t1, t2, t3, t4 };
				w[size_t(i)] = bad(k);
				const AA n{ w };
				VF_CHECK(n.infinity_or_nan() && AA::infinity_or_nan(n) && muu::infinity_or_nan(n), "axis_angle: non-finite component %d", i);
			}
		VF_CHECK((numbers<char>(a) == std::vector<L>{ 1, -2, 3, 4 }) && (numbers<wchar_t>(a) == std::vector<L>{ 1, -2, 3, 4 }), "streaming an axis_angle");
	}
	{
		const EU a{ t1, t2, t3 }, b{ V{ t1, t2, t3 } }, c{ t1, t2 };
		VF_CHECK(L(a.yaw) == 1 && L(a.pitch) == -2 && L(a.roll) == 3, "euler members");
		VF_CHECK(b.yaw == a.yaw && b.pitch == a.pitch && b.roll == a.roll, "euler from a vec3");
		VF_CHECK(c.yaw == a.yaw && c.pitch == a.pitch && L(c.roll) == 0, "euler default roll");
		const auto ad = euler_angles<double>{ a };
		VF_CHECK(L(ad.yaw) == 1 && L(ad.pitch) == -2 && L(ad.roll) == 3, "euler conversion");
		VF_CHECK((static_cast<V>(a) == V{ t1, t2, t3 }), "euler to vec3");
		EU d = a;
		EU& r = d *= t4;
		const EU x = a * t4, y = t4 * a;
		for (const EU& z : { d, x, y }) { VF_CHECK(L(z.yaw) == 4 && L(z.pitch) == -8 && L(z.roll) == 12, "euler scaling"); }
		VF_CHECK(&r == &d, "euler *= result");
		VF_CHECK(!a.infinity_or_nan() && !muu::infinity_or_nan(a), "euler finite");
		for (int i = 0; i < 3; i++)
			for (int k = 0; k < 2; k++)
			{
				V w{ t1, t2, t3 };
				w[size_t(i)] = bad(k);
				const EU n{ w };
				VF_CHECK(n.infinity_or_nan() && EU::infinity_or_nan(n) && muu::infinity_or_nan(n), "euler: non-finite component %d", i);
			}
		VF_CHECK((numbers<char>(a) == std::vector<L>{ 1, -2, 3 }) && (numbers<wchar_t>(a) == std::vector<L>{ 1, -2, 3 }), "streaming euler angles");
	}
	{
		const quaternion<T> q{ t1, t2, t3, t4 };
		VF_CHECK((numbers<char>(q) == std::vector<L>{ 1, -2, 3, 4 }) && (numbers<wchar_t>(q) == std::vector<L>{ 1, -2, 3, 4 }), "streaming a quaternion");
	}
	static_assert(std::is_same_v<decltype(quaternion{ t1, t2, t3, t4 }), quaternion<T>> && std::is_same_v<decltype(quaternion{ t1, V{} }), quaternion<T>>);
	static_assert(std::is_same_v<decltype(quaternion{ AA{} }), quaternion<T>> && std::is_same_v<decltype(quaternion{ EU{} }), quaternion<T>>);
	static_assert(std::is_same_v<decltype(axis_angle{ V{}, t1 }), AA> && std::is_same_v<decltype(euler_angles{ t1, t2, t3 }), EU> && std::is_same_v<decltype(euler_angles{ t1, t2 }), EU>);
}
#ifndef NO_CT
static constexpr bool ct()
{
	using Q = quaternion<double>;
	constexpr Q a{ 1, 2, 3, 4 }, b{ 5, 6, 7, 8 };
	static_assert(a * b == Q{ -60, 12, 30, 24 } && Q::dot(a, b) == 70 && a.conjugate() == Q{ 1, -2, -3, -4 });
	static_assert(Q{ 0, 1, 0, 0 } * vector<double, 3>{ 1, 2, 3 } == vector<double, 3>{ 1, -2, -3 });
	static_assert(Q{ 2, 0, 0, 0 } != a && Q::normalize(Q{ 2, 0, 0, 0 }) == constants<Q>::identity);
	static_assert(matrix<double, 3, 3>::from_quaternion(Q{ 0, 1, 0, 0 }) == matrix<double, 3, 3>{ 1, 0, 0, 0, -1, 0, 0, 0, -1 });
	static_assert(Q::from_axis_angle({ 0, 1, 0 }, 0) == constants<Q>::identity);
	static_assert(Q::from_rotation(matrix<double, 3, 3>{ 1, 0, 0, 0, 1, 0, 0, 0, 1 }) == constants<Q>::identity);
	return true;
}
#endif
template <class T> static void all(const std::string& t)
{
	static std::vector<std::string> keep;
	const auto nm = [&](const char* n) { return strdup((n + t).c_str()); };
	const std::string p = vf::args.empty() ? "" : vf::args[0];
	if (p.empty() || p == "G04")
	{
		algebra<T>(nm("algebra_"));
		interpolation<T>(nm("interpolation_"));
	}
	if (p.empty() || p == "G05")
	{
		matrices<T>(nm("matrices_"));
		axis_angles<T>(nm("axis_angles_"));
		eulers<T>(nm("eulers_"));
		between<T>(nm("between_"));
		holders<T>(nm("holders_"));
	}
}
int main(int argc, char** argv)
{
	vf::init(argc, argv);
#ifndef NO_CT
	static_assert(ct());
#endif
#if GRP == 0 || GRP == 1
	all<float>("float");
#endif
#if GRP == 0 || GRP == 2
	all<double>("double");
#endif
#if GRP == 0 || GRP == 3
	all<half>("half");
#endif
#if GRP == 0 || GRP == 4
	all<long double>("ldouble");
#endif
	return vf::finish();
}
