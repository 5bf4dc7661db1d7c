// Reference geometry over long double for the G06.. harnesses: points, convex hull separation (separating axes with all
// candidate axes of the two point sets), closest points. Inputs are small integers or halves, so that every sign decision
// below is exact; shapes turned by inexact rotations are compared outside a narrow band around touching.
#pragma once
#include "muu/half.h"
#include "muu/span.h"
#include "muu/bounding_box.h"
#include "muu/bounding_sphere.h"
#include "muu/line_segment.h"
#include "muu/oriented_bounding_box.h"
#include "muu/plane.h"
#include "muu/ray.h"
#include "muu/triangle.h"
#include "vf.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <tuple>
#include <vector>
using L = long double;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
template <class T> constexpr L ulp()
{
	if constexpr (sizeof(T) == 2) return 0x1p-10L;
	else return L(std::numeric_limits<T>::epsilon());
}
static bool near(L a, L b, L tol) { return std::fabs(a - b) <= tol; } // false for NaN

struct P
{
	L x, y, z;
	L operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
	L& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
};
static P operator+(P a, P b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
static P operator-(P a, P b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
static P operator*(P a, L k) { return { a.x * k, a.y * k, a.z * k }; }
static bool operator==(P a, P b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static L dot(P a, P b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P cross(P a, P b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static L len2(P a) { return dot(a, a); }
static L len(P a) { return sqrtl(len2(a)); }
static P unit(P a) { return a * (1 / len(a)); }
static bool near(P a, P b, L tol) { return near(a.x, b.x, tol) && near(a.y, b.y, tol) && near(a.z, b.z, tol); }

template <class T> using V = muu::vector<T, 3>;
template <class T> static V<T> v3(P p) { return V<T>{ T(p.x), T(p.y), T(p.z) }; }
template <class T> static P pt(const V<T>& v) { return { L(v.x), L(v.y), L(v.z) }; }

// all points of {lo..hi}^3 times `step`
static std::vector<P> grid(int lo, int hi, L step = 1)
{
	std::vector<P> r;
	for (int x = lo; x <= hi; x++)
		for (int y = lo; y <= hi; y++)
			for (int z = lo; z <= hi; z++) r.push_back({ x * step, y * step, z * step });
	return r;
}

// ---- rotations: columns are the images of x, y, z
struct R3
{
	P c[3];
	P operator*(P p) const { return c[0] * p.x + c[1] * p.y + c[2] * p.z; }
};
static R3 operator*(const R3& a, const R3& b) { return { { a * b.c[0], a * b.c[1], a * b.c[2] } }; }
// rotation of the integer quaternion (s, x, y, z): rational entries
static R3 rotq(int s, int x, int y, int z)
{
	const L n = s * s + x * x + y * y + z * z;
	return { { P{ L(s * s + x * x - y * y - z * z), L(2 * (x * y + s * z)), L(2 * (x * z - s * y)) } * (1 / n),
			   P{ L(2 * (x * y - s * z)), L(s * s - x * x + y * y - z * z), L(2 * (y * z + s * x)) } * (1 / n),
			   P{ L(2 * (x * z + s * y)), L(2 * (y * z - s * x)), L(s * s - x * x - y * y + z * z) } * (1 / n) } };
}

// ---- convex sets
struct Hull
{
	std::array<P, 8> v;
	int n = 0;
	std::array<P, 3> e, f; // distinct edge directions, face normals
	int ne = 0, nf = 0;
};
static Hull hull_seg(P a, P b)
{
	Hull h;
	h.v[0] = a, h.v[1] = b, h.n = 2, h.e[0] = b - a, h.ne = 1;
	return h;
}
static Hull hull_tri(P a, P b, P c)
{
	Hull h;
	h.v[0] = a, h.v[1] = b, h.v[2] = c, h.n = 3;
	h.e[0] = b - a, h.e[1] = c - b, h.e[2] = a - c, h.ne = 3;
	h.f[0] = cross(b - a, c - a), h.nf = 1;
	return h;
}
static Hull hull_box(P c, P e, const R3& r)
{
	Hull h;
	for (int i = 0; i < 8; i++) h.v[i] = c + r * P{ i & 1 ? e.x : -e.x, i & 2 ? e.y : -e.y, i & 4 ? e.z : -e.z };
	h.n = 8;
	for (int i = 0; i < 3; i++) h.e[i] = h.f[i] = r.c[i];
	h.ne = h.nf = 3;
	return h;
}
// The largest normalised gap between the projections over all candidate separating axes: > 0 apart, 0 touching, < 0
// overlapping. For flat sets the in-plane normals are candidates too.
static L gap(const Hull& a, const Hull& b)
{
	L best		 = -1e30L;
	const auto t = [&](P ax)
	{
		const L l2 = len2(ax);
		if (l2 < 1e-12L) return;
		L alo = 1e30L, ahi = -1e30L, blo = 1e30L, bhi = -1e30L;
		for (int i = 0; i < a.n; i++)
		{
			const L d = dot(ax, a.v[i]);
			alo = std::min(alo, d), ahi = std::max(ahi, d);
		}
		for (int i = 0; i < b.n; i++)
		{
			const L d = dot(ax, b.v[i]);
			blo = std::min(blo, d), bhi = std::max(bhi, d);
		}
		const L g = std::max(blo - ahi, alo - bhi);
		best	  = std::max(best, g == 0 ? 0 : g / sqrtl(l2));
	};
	for (int i = 0; i < a.nf; i++) t(a.f[i]);
	for (int i = 0; i < b.nf; i++) t(b.f[i]);
	for (int i = 0; i < a.ne; i++)
		for (int j = 0; j < b.ne; j++) t(cross(a.e[i], b.e[j]));
	const auto flat = [&](const Hull& s)
	{
		if (s.nf == 1)
			for (int i = 0; i < s.ne; i++) t(cross(s.f[0], s.e[i]));
	};
	flat(a), flat(b);
	if (a.ne == 1) // a segment: the planes through it perpendicular to the other's faces, and its own direction
	{
		for (int j = 0; j < b.nf; j++) t(cross(a.e[0], b.f[j]));
		t(a.e[0]);
	}
	return best;
}
static P closest_seg(P a, P b, P p)
{
	const P d = b - a;
	const L l = len2(d);
	if (l == 0) return a;
	return a + d * std::clamp(dot(p - a, d) / l, L(0), L(1));
}
static P closest_tri(P a, P b, P c, P p)
{
	const P n  = cross(b - a, c - a);
	const L n2 = len2(n);
	if (n2 != 0)
	{
		const P q = p - n * (dot(p - a, n) / n2);
		if (dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0) return q;
	}
	P best = a;
	L d	   = 1e30L;
	for (P q : { closest_seg(a, b, p), closest_seg(b, c, p), closest_seg(c, a, p) })
		if (len2(q - p) < d) d = len2(q - p), best = q;
	return best;
}
static P closest_box(P c, P e, const R3& r, P p)
{
	P q = c;
	for (int i = 0; i < 3; i++) q = q + r.c[i] * std::clamp(dot(p - c, r.c[i]), -e[i], e[i]);
	return q;
}
static const R3 IDENT{ { P{ 1, 0, 0 }, P{ 0, 1, 0 }, P{ 0, 0, 1 } } };

// ---- muu shapes from reference data
template <class T> static muu::bounding_box<T> mbox(P c, P e) { return { v3<T>(c), v3<T>(e) }; }
template <class T> static muu::matrix<T, 3, 3> maxes(const R3& r)
{
	muu::matrix<T, 3, 3> m;
	for (int c = 0; c < 3; c++)
		for (int i = 0; i < 3; i++) m(size_t(i), size_t(c)) = T(r.c[c][i]);
	return m;
}
template <class T> static muu::oriented_bounding_box<T> mobb(P c, P e, const R3& r) { return { v3<T>(c), v3<T>(e), maxes<T>(r) }; }
template <class T> static muu::bounding_sphere<T> msph(P c, L r) { return { v3<T>(c), T(r) }; }
template <class T> static muu::triangle<T> mtri(P a, P b, P c) { return { v3<T>(a), v3<T>(b), v3<T>(c) }; }
template <class T> static muu::line_segment<T> mseg(P a, P b) { return { v3<T>(a), v3<T>(b) }; }
// the point {x, y, z} appears in reports as (2x+50)(2y+50)(2z+50), two digits each
static long long pk(P p) { return (long long)(p.x * 2 + 50) * 10000 + (long long)(p.y * 2 + 50) * 100 + (long long)(p.z * 2 + 50); }
