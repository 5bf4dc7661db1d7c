// Measures and closest points of shapes (G07); bounding boxes of point sets and shapes, appending, translation, scaling
// and transformation (G08). Reference: long double geometry over small lattices.
#include "geo.h"
using muu::box_corner;
using muu::half;
template <class T> constexpr L U = ulp<T>();
static bool eqv(P a, P b, L tol) { return near(a, b, tol); }

static const std::vector<R3>& rots()
{
	static std::vector<R3> r;
	if (r.empty())
	{
		for (int s = -1; s <= 1; s++) // the 24 rotations of the cube come from these quaternions
			for (int x = -1; x <= 1; x++)
				for (int y = -1; y <= 1; y++)
					for (int z = -1; z <= 1; z++)
					{
						const int n = s * s + x * x + y * y + z * z;
						if (n != 1 && n != 2 && n != 4) continue;
						const R3 q = rotq(s, x, y, z);
						bool dup   = false;
						for (const R3& o : r) dup |= o.c[0] == q.c[0] && o.c[1] == q.c[1] && o.c[2] == q.c[2];
						if (!dup) r.push_back(q);
					}
		for (R3 q : { rotq(2, 1, 0, 0), rotq(1, 2, 3, 0), rotq(3, 1, -1, 2), rotq(1, 1, 2, 3) }) r.push_back(q);
	}
	return r;
}
// affine maps
struct A4
{
	R3 m;
	P t;
	P operator*(P p) const { return m * p + t; }
};
template <class T> static muu::matrix<T, 4, 4> mat4(const A4& a)
{
	muu::matrix<T, 4, 4> m;
	for (size_t c = 0; c < 4; c++)
		for (size_t r = 0; r < 4; r++) m(r, c) = T(r == 3 ? (c == 3 ? 1 : 0) : c == 3 ? a.t[int(r)] : a.m.c[c][int(r)]);
	return m;
}

static P pick(P lo, P hi, int bits) { return { bits & 1 ? hi.x : lo.x, bits & 2 ? hi.y : lo.y, bits & 4 ? hi.z : lo.z }; }
template <class S> static auto corner_ct(const S& s, int bits)
{
	switch (bits)
	{
		case 0: return s.template corner<box_corner::min>();
		case 1: return s.template corner<box_corner::x>();
		case 2: return s.template corner<box_corner::y>();
		case 3: return s.template corner<box_corner::xy>();
		case 4: return s.template corner<box_corner::z>();
		case 5: return s.template corner<box_corner::xz>();
		case 6: return s.template corner<box_corner::yz>();
		default: return s.template corner<box_corner::max>();
	}
}
template <class S> static auto corner_st(const S& s, int bits)
{
	switch (bits)
	{
		case 0: return S::template corner<box_corner::min>(s);
		case 1: return S::template corner<box_corner::x>(s);
		case 2: return S::template corner<box_corner::y>(s);
		case 3: return S::template corner<box_corner::xy>(s);
		case 4: return S::template corner<box_corner::z>(s);
		case 5: return S::template corner<box_corner::xz>(s);
		case 6: return S::template corner<box_corner::yz>(s);
		default: return S::template corner<box_corner::max>(s);
	}
}
static box_corner name(int bits)
{
	const box_corner n[] = { box_corner::min, box_corner::x, box_corner::y, box_corner::xy, box_corner::z, box_corner::xz, box_corner::yz, box_corner::max };
	return n[bits];
}

template <class T> struct measures
{
	using VT = V<T>;
	using B	 = muu::bounding_box<T>;
	using O	 = muu::oriented_bounding_box<T>;
	using S	 = muu::bounding_sphere<T>;
	using TR = muu::triangle<T>;
	using SG = muu::line_segment<T>;
	using PL = muu::plane<T>;
	template <class X> static void box_measures(const char* what, X b, P e)
	{
		const L vol = 8 * e.x * e.y * e.z, tol = 8 * U<T> * (1 + vol);
		const X& cb	 = b;
		VF_CHECK(L(b.width()) == 2 * e.x && L(b.height()) == 2 * e.y && L(b.depth()) == 2 * e.z, "%s: width/height/depth", what);
		VF_CHECK(near(L(b.diagonal()), 2 * len(e), 8 * U<T> * (1 + len(e))), "%s: diagonal %Lg != %Lg", what, L(b.diagonal()), 2 * len(e));
		const L sh = std::min({ e.x, e.y, e.z }), lo = std::max({ e.x, e.y, e.z });
		VF_CHECK(L(cb.shortest_extent()) == sh && L(cb.longest_extent()) == lo, "%s: shortest/longest extent", what);
		VF_CHECK(L(b.shortest_side()) == 2 * sh && L(b.longest_side()) == 2 * lo, "%s: shortest/longest side", what);
		VF_CHECK(near(L(b.volume()), vol, tol), "%s: volume %Lg != %Lg", what, L(b.volume()), vol);
		VF_CHECK(near(L(b.mass(T(2))), 2 * vol, 4 * tol), "%s: mass", what);
		if (vol != 0) VF_CHECK(near(L(b.density(T(3))), 3 / vol, 16 * U<T> * 3 / vol), "%s: density %Lg != %Lg", what, L(b.density(T(3))), 3 / vol);
		// the mutable accessors refer to the extents themselves
		T* p = &b.shortest_extent();
		VF_CHECK(p == &b.extents.x || p == &b.extents.y || p == &b.extents.z, "%s: shortest_extent() is not an extent", what);
		T* q = &b.longest_extent();
		VF_CHECK(q == &b.extents.x || q == &b.extents.y || q == &b.extents.z, "%s: longest_extent() is not an extent", what);
		const T* cp = &cb.shortest_extent();
		VF_CHECK(cp == &cb.extents.x || cp == &cb.extents.y || cp == &cb.extents.z, "%s: shortest_extent() const is not an extent", what);
		vf::state();
		vf::trans(12);
	}
	template <class X> static void corners(const char* what, const X& b, P c, P e, const R3& r, L tol)
	{
		for (int i = 0; i < 8; i++)
		{
			const P w = c + r * pick(e * -1, e, i);
			VF_CHECK(eqv(pt<T>(corner_ct(b, i)), w, tol) && eqv(pt<T>(corner_st(b, i)), w, tol), "%s: corner<%d>", what, i);
			VF_CHECK(eqv(pt<T>(b.corner(name(i))), w, tol) && eqv(pt<T>(X::corner(b, name(i))), w, tol), "%s: corner(%d)", what, i);
		}
		VF_CHECK(eqv(pt<T>(b.min_corner()), c - r * e, tol) && eqv(pt<T>(X::min_corner(b)), c - r * e, tol), "%s: min_corner", what);
		VF_CHECK(eqv(pt<T>(b.max_corner()), c + r * e, tol) && eqv(pt<T>(X::max_corner(b)), c + r * e, tol), "%s: max_corner", what);
		vf::state();
		vf::trans(36);
	}
	static void boxes()
	{
		vf::group("box.measures");
		const L es[] = { 0, 0.25L, 0.5L, 1, 1.5L, 2, 3 };
		for (L x : es)
			for (L y : es)
				for (L z : es)
				{
					if (!mine_()) continue;
					const P e{ x, y, z };
					vf::at(int(x * 4), int(y * 4), int(z * 4));
					box_measures("box", mbox<T>({ 1, -2, 0.5L }, e), e);
					box_measures("obb", mobb<T>({ 1, -2, 0.5L }, e, rotq(2, 1, 0, 0)), e);
					for (P c : { P{ 0, 0, 0 }, P{ 1, -2, 0.5L }, P{ -3, 0, 2 } })
					{
						corners("box", mbox<T>(c, e), c, e, IDENT, 0);
						for (const R3& r : rots()) corners("obb", mobb<T>(c, e, r), c, e, r, 16 * U<T>);
					}
				}
		vf::group("sphere.measures");
		for (int k = 0; k <= 20; k++)
		{
			if (!mine_()) continue;
			vf::at(k);
			const L r	= k / 4.0L;
			const S s	= msph<T>({ 1, 2, -3 }, r);
			const L vol = 4 * acosl(-1) / 3 * r * r * r;
			VF_CHECK(L(s.diameter()) == 2 * r, "diameter");
			VF_CHECK(near(L(s.volume()), vol, 8 * U<T> * (1 + vol)), "sphere volume %Lg != %Lg", L(s.volume()), vol);
			VF_CHECK(near(L(s.mass(T(2))), 2 * vol, 32 * U<T> * (1 + vol)), "sphere mass");
			if (r > 0) VF_CHECK(near(L(s.density(T(3))), 3 / vol, 16 * U<T> * 3 / vol), "sphere density");
			vf::state();
			vf::trans(4);
		}
	}
	static void closest()
	{
		vf::group("closest.box");
		const auto g = grid(-8, 8, 0.5L);
		const std::pair<P, P> bs[] = { { { 0, 0, 0 }, { 1, 1, 1 } }, { { 0.5L, -1, 0 }, { 2, 0.5L, 1 } }, { { -1, 0, 1.5L }, { 0.5L, 1.5L, 2 } }, { { 1, 1, 1 }, { 0, 2, 0 } } };
		int bi = 0;
		for (const auto& [c, e] : bs)
		{
			bi++;
			const B b = mbox<T>(c, e);
			for (P p : g)
			{
				if (!mine_()) continue;
				vf::at(bi, pk(p));
				const P w = closest_box(c, e, IDENT, p);
				VF_CHECK(eqv(pt<T>(b.closest_point(v3<T>(p))), w, 0), "closest point of a box");
				vf::state();
				vf::trans();
				int ri = 0;
				for (const R3& r : rots())
				{
					if (++ri % 4 != 1 && ri < 25 && !vf::thorough) continue;
					vf::at(bi, pk(p), ri);
					const O o	 = mobb<T>(c, e, r);
					const P wo	 = closest_box(c, e, r, p);
					const P got = pt<T>(o.closest_point(v3<T>(p)));
					VF_CHECK(eqv(got, wo, 64 * U<T>), "closest point of an obb: (%Lg,%Lg,%Lg) != (%Lg,%Lg,%Lg)", got.x, got.y, got.z, wo.x, wo.y, wo.z);
					vf::state();
					vf::trans();
				}
			}
		}
		vf::group("closest.sphere");
		for (P c : { P{ 0, 0, 0 }, P{ 1, -2, 0.5L }, P{ -1, 1, 1 } })
			for (int k = 1; k <= 6; k++)
				for (P p : g)
				{
					if (!mine_()) continue;
					vf::at(pk(c), k, pk(p));
					const L r = k / 2.0L;
					const P d = p - c;
					const P w = len2(d) <= r * r ? p : c + unit(d) * r;
					const P got = pt<T>(msph<T>(c, r).closest_point(v3<T>(p)));
					VF_CHECK(eqv(got, w, 32 * U<T>), "closest point of a sphere: (%Lg,%Lg,%Lg) != (%Lg,%Lg,%Lg)", got.x, got.y, got.z, w.x, w.y, w.z);
					vf::state();
					vf::trans();
				}
		vf::group("closest.segment");
		const auto h = grid(-2, 2), q = grid(-3, 3);
		for (P a : h)
			for (P b : h)
			{
				if (a == b || !mine_()) continue;
				const SG s = mseg<T>(a, b);
				for (P p : q)
				{
					vf::at(pk(a), pk(b), pk(p));
					const P w = closest_seg(a, b, p);
					const VT v = v3<T>(p);
					VF_CHECK(eqv(pt<T>(s.closest_point(v)), w, 64 * U<T>) && eqv(pt<T>(SG::closest_point(s, v)), w, 64 * U<T>), "closest point of a segment");
					vf::state();
					vf::trans(2);
				}
			}
	}
	static void planes()
	{
		vf::group("plane");
		const auto g = grid(-3, 3), dirs = grid(-2, 2), q = grid(-2, 2);
		for (P n : dirs)
		{
			if (len2(n) == 0) continue;
			const VT un = v3<T>(unit(n));
			const P pn	= pt<T>(un);
			for (P o : q)
			{
				if (!mine_()) continue;
				vf::at(pk(n), pk(o));
				const PL p{ v3<T>(o), un };
				const L e = 32 * U<T>, d = -dot(pn, o);
				VF_CHECK(pt<T>(p.normal) == pn && near(L(p.d), d, e), "plane from position and direction");
				const P org = pt<T>(p.origin());
				VF_CHECK(eqv(org, pn * -d, e) && eqv(pt<T>(PL::origin(p)), pn * -d, e), "plane origin");
				for (P x : g)
				{
					const L sd = dot(pn, x) + d;
					const VT v = v3<T>(x);
					VF_CHECK(near(L(p.signed_distance(v)), sd, e) && near(L(PL::signed_distance(p, v)), sd, e), "signed distance");
					VF_CHECK(near(L(p.distance(v)), std::fabs(sd), e) && near(L(PL::distance(p, v)), std::fabs(sd), e), "distance");
					VF_CHECK(eqv(pt<T>(p.project(v)), x - pn * sd, 2 * e) && eqv(pt<T>(PL::project(p, v)), x - pn * sd, 2 * e), "projection");
					const SG s = mseg<T>(x, o + P{ 1, 0, -1 });
					const SG s1 = p.project(s), s2 = PL::project(p, s);
					const P y = o + P{ 1, 0, -1 };
					const P yp = y - pn * (dot(pn, y) + d);
					VF_CHECK(eqv(pt<T>(s1[0]), x - pn * sd, 2 * e) && eqv(pt<T>(s1[1]), yp, 2 * e) && eqv(pt<T>(s2[0]), x - pn * sd, 2 * e) && eqv(pt<T>(s2[1]), yp, 2 * e), "projection of a segment");
					vf::state();
					vf::trans(8);
				}
				// normalisation of scaled planes denotes the same plane
				for (L k : { 0.5L, 1.0L, 3.0L })
				{
					const PL raw{ v3<T>(n * k), T(-dot(n, o) * k) };
					PL m  = raw;
					PL& r = m.normalize();
					const PL m2 = PL::normalize(raw);
					const bool nn = std::fabs(len(n * k) - 1) < 1e-9L;
					for (const PL& z : { m, m2 })
						VF_CHECK(eqv(pt<T>(z.normal), unit(n), e) && near(L(z.d), -dot(unit(n), o), 2 * e), "normalize of a plane: d %Lg", L(z.d));
					VF_CHECK(&r == &m && m.normalized() && PL::normalized(m) && muu::normalized(m), "normalized() of a normalised plane");
					VF_CHECK(raw.normalized() == nn && PL::normalized(raw) == nn && muu::normalized(raw) == nn, "normalized(): not %d", nn);
					vf::state();
					vf::trans(6);
				}
			}
		}
	}
	static void tris()
	{
		vf::group("triangle");
		const auto g = grid(-2, 2);
		const size_t step = vf::thorough ? 1 : 2;
		for (size_t i = 0; i < g.size(); i++)
			for (size_t j = 0; j < g.size(); j++)
			{
				if (!mine_()) continue;
				for (size_t k = (i + j) % step; k < g.size(); k += step)
				{
					const P a = g[i], b = g[j], c = g[k];
					vf::at(pk(a), pk(b), pk(c));
					const VT va = v3<T>(a), vb = v3<T>(b), vc = v3<T>(c);
					const TR t{ va, vb, vc };
					const L e	= 64 * U<T>;
					const P n	= cross(b - a, c - a);
					const P cen = (a + b + c) * (1 / 3.0L);
					VF_CHECK(eqv(pt<T>(t.centroid()), cen, e) && eqv(pt<T>(TR::centroid(va, vb, vc)), cen, e), "centroid");
					const L per = len(b - a) + len(c - b) + len(a - c), area = len(n) / 2;
					VF_CHECK(near(L(t.perimeter()), per, e) && near(L(TR::perimeter(va, vb, vc)), per, e), "perimeter");
					// Heron's formula is ill-conditioned for thin triangles
					const L ae = area == 0 ? 8 * sqrtl(U<T>) * (1 + per) : e * (1 + per * per * per / area);
					VF_CHECK(near(L(t.area()), area, ae) && near(L(TR::area(va, vb, vc)), area, ae), "area %Lg != %Lg", L(t.area()), area);
					const bool deg = a == b || b == c || a == c;
					if (deg) VF_CHECK(t.degenerate() && TR::degenerate(va, vb, vc), "a triangle with equal corners is not degenerate()");
					else if (area > 0) VF_CHECK(!t.degenerate() && !TR::degenerate(va, vb, vc), "a proper triangle is degenerate()");
					vf::state();
					vf::trans(8);
					if (area == 0) continue;
					const P un = unit(n);
					VF_CHECK(eqv(pt<T>(t.normal()), un, e) && eqv(pt<T>(TR::normal(va, vb, vc)), un, e), "normal");
					for (const PL& p : { t.plane(), TR::plane(va, vb, vc), PL{ t }, PL{ va, vb, vc }, PL::from_triangle(t), PL::from_triangle(va, vb, vc), static_cast<PL>(t) })
						VF_CHECK(eqv(pt<T>(p.normal), un, e) && near(L(p.d), -dot(un, a), 4 * e), "plane of a triangle");
					vf::trans(9);
				}
			}
		vf::group("triangle.barycentric");
		const P ts[][3] = { { { 0, 0, 0 }, { 2, 0, 0 }, { 0, 2, 0 } }, { { -1, 0, 1 }, { 1, 2, 0 }, { 2, -1, -1 } }, { { 1, 1, 1 }, { -1, 1, 2 }, { 0, -2, -1 } }, { { 0, 0, -2 }, { 0, 1, 2 }, { 0, -2, 0.5L } } };
		int ti = 0;
		for (const auto& t0 : ts)
			for (int pm = 0; pm < 6; pm++)
			{
				ti++;
				static const int pr[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 0, 2 } };
				const P t[3] = { t0[pr[pm][0]], t0[pr[pm][1]], t0[pr[pm][2]] };
				const TR tr	 = mtri<T>(t[0], t[1], t[2]);
				const auto gen = tr.barycentric_generator();
				const auto ge2 = TR::barycentric_generator(tr[0], tr[1], tr[2]);
				const P n = cross(t[1] - t[0], t[2] - t[0]);
				const L n2 = len2(n);
				for (P p : grid(-6, 6, 0.5L))
				{
					if (!mine_()) continue;
					vf::at(ti, pk(p));
					// of the projection onto the plane
					const L v = dot(cross(p - t[0], t[2] - t[0]), n) / n2, w = dot(cross(t[1] - t[0], p - t[0]), n) / n2;
					const P want{ 1 - v - w, v, w };
					const VT q = v3<T>(p);
					for (const VT& r : { tr.barycentric(q), TR::barycentric(tr[0], tr[1], tr[2], q), gen(q), ge2(q) })
						VF_CHECK(eqv(pt<T>(r), want, 512 * U<T>), "barycentric (%Lg,%Lg,%Lg) != (%Lg,%Lg,%Lg)", L(r.x), L(r.y), L(r.z), want.x, want.y, want.z);
					vf::state();
					vf::trans(4);
				}
			}
	}
	static void segs()
	{
		vf::group("segment");
		const auto g = grid(-2, 2);
		for (P a : g)
			for (P b : g)
			{
				if (!mine_()) continue;
				vf::at(pk(a), pk(b));
				const SG s = mseg<T>(a, b);
				const L l = len(b - a), e = 32 * U<T>;
				VF_CHECK(near(L(s.length()), l, e) && near(L(SG::length(s)), l, e), "length");
				VF_CHECK(near(L(s.length_squared()), l * l, 16 * U<T> * (1 + l * l)) && near(L(SG::length_squared(s)), l * l, 16 * U<T> * (1 + l * l)), "squared length");
				VF_CHECK(eqv(pt<T>(s.midpoint()), (a + b) * 0.5L, 0) && eqv(pt<T>(SG::midpoint(s)), (a + b) * 0.5L, 0), "midpoint");
				SG r   = s;
				SG& rr = r.reverse();
				const SG r2 = SG::reverse(s);
				VF_CHECK(&rr == &r && pt<T>(r[0]) == b && pt<T>(r[1]) == a && pt<T>(r2[0]) == b && pt<T>(r2[1]) == a, "reverse");
				VF_CHECK(s.degenerate() == (a == b) && SG::degenerate(s) == (a == b) && muu::degenerate(s) == (a == b), "degenerate");
				vf::state();
				vf::trans(9);
				if (a == b) continue;
				const P d = unit(b - a);
				T l1{}, l2{};
				VF_CHECK(eqv(pt<T>(s.direction()), d, e) && eqv(pt<T>(SG::direction(s)), d, e), "direction");
				VF_CHECK(eqv(pt<T>(s.direction(l1)), d, e) && eqv(pt<T>(SG::direction(s, l2)), d, e) && near(L(l1), l, e) && near(L(l2), l, e), "direction with length");
				for (int k = -2; k <= 4; k++)
				{
					vf::at(pk(a), pk(b), k);
					const L by = k / 2.0L;
					if (l + by < 0) continue;
					SG x   = s;
					SG& xr = x.extend(T(by));
					const SG y = SG::extend(s, T(by));
					VF_CHECK(&xr == &x, "extend does not return *this");
					for (const SG& z : { x, y }) VF_CHECK(pt<T>(z[0]) == a && eqv(pt<T>(z[1]), a + d * (l + by), 2 * e), "extend(%d/2)", k);
					vf::trans(2);
				}
			}
	}
	static void all()
	{
		boxes();
		closest();
		planes();
		tris();
		segs();
	}
};

template <class T> struct bounds
{
	using VT = V<T>;
	using B	 = muu::bounding_box<T>;
	using O	 = muu::oriented_bounding_box<T>;
	using S	 = muu::bounding_sphere<T>;
	using TR = muu::triangle<T>;
	using SG = muu::line_segment<T>;
	using PL = muu::plane<T>;
	using M4 = muu::matrix<T, 4, 4>;
	struct box
	{
		P lo{ 1e30L, 1e30L, 1e30L }, hi{ -1e30L, -1e30L, -1e30L };
		box& add(P p)
		{
			for (int i = 0; i < 3; i++) lo[i] = std::min(lo[i], p[i]), hi[i] = std::max(hi[i], p[i]);
			return *this;
		}
		P c() const { return (lo + hi) * 0.5L; }
		P e() const { return (hi - lo) * 0.5L; }
	};
	static void is(const char* what, const B& b, const box& w, L tol = 0)
	{
		const P c = w.c(), e = w.e(), gc = pt<T>(b.center), ge = pt<T>(b.extents);
		VF_CHECK(eqv(gc, c, tol) && eqv(ge, e, tol), "%s: center (%Lg,%Lg,%Lg) extents (%Lg,%Lg,%Lg), should be (%Lg,%Lg,%Lg) (%Lg,%Lg,%Lg)", what, gc.x, gc.y, gc.z, ge.x, ge.y, ge.z, c.x, c.y, c.z, e.x, e.y, e.z);
		vf::trans();
	}
	static void points()
	{
		vf::group("bounds.points");
		const auto g = grid(-2, 2);
		using F2	 = std::conditional_t<std::is_same_v<T, double>, float, double>;
		for (size_t i = 0; i < g.size(); i++)
			for (size_t j = 0; j < g.size(); j++)
			{
				if (!mine_()) continue;
				const P a = g[i], b = g[j];
				vf::at(pk(a), pk(b));
				const VT va = v3<T>(a), vb = v3<T>(b);
				const box ab = box{}.add(a).add(b);
				vf::state();
				is("from_points(2)", B::from_points(va, vb), ab);
				is("from_min_max", B::from_min_max(v3<T>(ab.lo), v3<T>(ab.hi)), ab);
				const P c = g[(i * 7 + j * 3) % g.size()], d = g[(i + j * 11 + 5) % g.size()], e = g[(i * 31 + j) % g.size()];
				const VT vc = v3<T>(c), vd = v3<T>(d), ve = v3<T>(e);
				const box a3 = box(ab).add(c), a4 = box(a3).add(d), a5 = box(a4).add(e);
				is("from_points(3)", B::from_points(va, vb, vc), a3);
				is("from_points(4)", B::from_points(va, vb, vc, vd), a4);
				is("from_points(5)", B::from_points(va, vb, vc, vd, ve), a5);
				is("from_points of mixed types", B::from_points(va, vb, v3<F2>(c), v3<T>(d)), a4);
				const VT arr[] = { va, vb, vc, vd, ve };
				const VT one[] = { va };
				is("from_points(array)", B::from_points(arr), a5);
				is("from_points(array of 1)", B::from_points(one), box{}.add(a));
				for (int n = 1; n <= 5; n++)
				{
					box w;
					for (int k = 0; k < n; k++) w.add(pt<T>(arr[k]));
					is("from_points(range)", B::from_points(arr, arr + n), w);
					is("box(range)", B(arr, arr + n), w);
					is("box(pointer, count)", B(arr, size_t(n)), w);
					VT mut[5] = { va, vb, vc, vd, ve };
					is("box(span)", B(muu::span<VT>(mut, size_t(n))), w);
					is("box(const_span)", B(muu::const_span<VT>(arr, size_t(n))), w);
				}
				is("box(array)", B(arr), a5);
				is("from_points(empty)", B::from_points(arr, arr), box{}.add({ 0, 0, 0 }));
			}
	}
	static void append()
	{
		vf::group("bounds.append");
		const auto g = grid(-2, 2);
		using F2	 = std::conditional_t<std::is_same_v<T, double>, float, double>;
		const std::pair<P, P> bs[] = { { { 0, 0, 0 }, { 1, 1, 1 } }, { { 0.5L, -0.5L, 1 }, { 0.5L, 1.5L, 0 } }, { { 1, -1, 0 }, { 0, 0, 0 } }, { { -1, 0, 0.5L }, { 0.5L, 2, 1 } } };
		int bi = 0;
		for (const auto& [c0, e0] : bs)
		{
			bi++;
			const box w0 = box{}.add(c0 - e0).add(c0 + e0);
			for (size_t i = 0; i < g.size(); i++)
				for (size_t j = 0; j < g.size(); j++)
				{
					if (!mine_()) continue;
					const P a = g[i], b = g[j], c = g[(i * 7 + j * 3) % g.size()], d = g[(i + j * 11 + 5) % g.size()];
					vf::at(bi, pk(a), pk(b));
					vf::state();
					const VT va = v3<T>(a), vb = v3<T>(b), vc = v3<T>(c), vd = v3<T>(d);
					const B b0 = mbox<T>(c0, e0);
					const auto t = [&](const char* what, auto&& f, const box& w)
					{
						B x = b0;
						B& r = f(x);
						VF_CHECK(&r == &x, "%s does not return *this", what);
						is(what, x, w);
					};
					t("append(1)", [&](B& x) -> B& { return x.append(va); }, box(w0).add(a));
					t("append(2)", [&](B& x) -> B& { return x.append(va, vb); }, box(w0).add(a).add(b));
					t("append(3)", [&](B& x) -> B& { return x.append(va, vb, vc); }, box(w0).add(a).add(b).add(c));
					t("append(4)", [&](B& x) -> B& { return x.append(va, vb, vc, vd); }, box(w0).add(a).add(b).add(c).add(d));
					t("append of mixed types", [&](B& x) -> B& { return x.append(va, vb, v3<F2>(c), v3<T>(d)); }, box(w0).add(a).add(b).add(c).add(d));
					t("append(segment)", [&](B& x) -> B& { return x.append(SG{ va, vb }); }, box(w0).add(a).add(b));
					t("append(triangle)", [&](B& x) -> B& { return x.append(TR{ va, vb, vc }); }, box(w0).add(a).add(b).add(c));
					const P h{ std::fabs(b.x) / 2, std::fabs(b.y) / 2, std::fabs(b.z) / 2 };
					t("append(box)", [&](B& x) -> B& { return x.append(mbox<T>(a, h)); }, box(w0).add(a - h).add(a + h));
					t("append(self)", [&](B& x) -> B& { return x.append(x); }, w0);
					t("append(own corner)", [&](B& x) -> B& { return x.append(x.center); }, w0);
				}
		}
	}
	static box hull(P c, P e, const R3& r)
	{
		box w;
		for (int i = 0; i < 8; i++) w.add(c + r * pick(e * -1, e, i));
		return w;
	}
	static void shapes()
	{
		vf::group("bounds.shapes");
		const L es[] = { 0, 0.5L, 1, 2 };
		for (P c : grid(-1, 1))
			for (L x : es)
				for (L y : es)
					for (L z : es)
					{
						if (!mine_()) continue;
						const P e{ x, y, z };
						int ri = 0;
						for (const R3& r : rots())
						{
							vf::at(pk(c), pk(e), ri++);
							const O o = mobb<T>(c, e, r);
							const box w = hull(c, e, r);
							is("from_obb", B::from_obb(o), w, 16 * U<T>);
							is("box(obb)", B(o), w, 16 * U<T>);
							vf::state();
						}
						const S s = msph<T>(c, x);
						const box w = box{}.add(c - P{ x, x, x }).add(c + P{ x, x, x });
						is("from_sphere", B::from_sphere(s), w);
						is("box(sphere)", B(s), w);
						// moving and scaling keep everything else
						for (P d : { P{ 1, -2, 0.5L }, P{ 0, 0, 3 } })
						{
							B b = mbox<T>(c, e);
							B& br = b.translate(v3<T>(d));
							is("box translate", b, box{}.add(c + d - e).add(c + d + e));
							is("static box translate", B::translate(mbox<T>(c, e), v3<T>(d)), box{}.add(c + d - e).add(c + d + e));
							VF_CHECK(&br == &b, "translate does not return *this");
							S q = s;
							S& qr = q.translate(v3<T>(d));
							const S q2 = S::translate(s, v3<T>(d));
							VF_CHECK(&qr == &q && pt<T>(q.center) == c + d && L(q.radius) == x && q2 == q, "sphere translate");
							for (const R3& r : { rots()[3], rots()[25] })
							{
								const O o = mobb<T>(c, e, r);
								O p = o;
								O& pr = p.translate(v3<T>(d));
								VF_CHECK(&pr == &p && pt<T>(p.center) == c + d && p.extents == o.extents && p.axes == o.axes && O::translate(o, v3<T>(d)) == p, "obb translate");
								O k = o;
								O& kr = k.scale(v3<T>({ 2, 0.5L, 3 }));
								VF_CHECK(&kr == &k && k.center == o.center && pt<T>(k.extents) == (P{ 2 * x, 0.5L * y, 3 * z }) && k.axes == o.axes && O::scale(o, v3<T>({ 2, 0.5L, 3 })) == k, "obb scale");
							}
							B k = mbox<T>(c, e);
							B& kr = k.scale(v3<T>({ 2, 0.5L, 3 }));
							VF_CHECK(&kr == &k && pt<T>(k.center) == c && pt<T>(k.extents) == (P{ 2 * x, 0.5L * y, 3 * z }) && B::scale(mbox<T>(c, e), v3<T>({ 2, 0.5L, 3 })) == k, "box scale");
							S m = s;
							S& mr = m.scale(T(3));
							VF_CHECK(&mr == &m && pt<T>(m.center) == c && L(m.radius) == 3 * x && S::scale(s, T(3)) == m, "sphere scale");
							vf::state();
							vf::trans(16);
						}
					}
	}
	static void transform()
	{
		vf::group("transform");
		std::vector<std::pair<A4, int>> ms; // kind 0: rigid, 1: uniform scale, 2: axis scale/mirror (only axis-aligned), 3: shear
		const P ts[] = { { 0, 0, 0 }, { 2, -1, 0.5L } };
		for (const R3& r : rots())
			for (P t : ts)
			{
				ms.push_back({ { r, t }, 0 });
				for (L k : { 2.0L, 0.5L }) ms.push_back({ { { { r.c[0] * k, r.c[1] * k, r.c[2] * k } }, t }, 1 });
				ms.push_back({ { { { r.c[0] * 2, r.c[1] * 0.5L, r.c[2] } }, t }, 2 });
				ms.push_back({ { { { r.c[0] * -1, r.c[1] * 2, r.c[2] } }, t }, 2 });
				ms.push_back({ { { { r.c[0], r.c[1] + r.c[0], r.c[2] - r.c[1] } }, t }, 3 });
			}
		const L es[] = { 0, 0.5L, 2 };
		int mi = 0;
		for (const auto& [m, kind] : ms)
		{
			mi++;
			const M4 tx = mat4<T>(m);
			for (P c : grid(-1, 1))
				for (L x : es)
					for (L y : es)
						for (L z : es)
						{
							if (!mine_()) continue;
							const P e{ x, y, z };
							vf::at(mi, pk(c), pk(e));
							vf::state();
							const L tol = 64 * U<T>;
							box w;
							for (int i = 0; i < 8; i++) w.add(m * (c + pick(e * -1, e, i)));
							B b = mbox<T>(c, e);
							is("static box transform", B::transform(b, tx), w, tol);
							B& br = b.transform(tx);
							is("box transform", b, w, tol);
							VF_CHECK(&br == &b, "transform does not return *this");
							if (kind == 3) continue;
							for (int ri : { 0, 3, 7, 25, 26 })
							{
								if (kind == 2 && ri != 0) continue; // a scaled rotated box is no box
								const R3 r = kind == 2 ? IDENT : rots()[size_t(ri)];
								vf::at(mi, pk(c), pk(e), ri);
								const O o	 = mobb<T>(c, e, r);
								O o1		 = o;
								O& orf		 = o1.transform(tx);
								const O o2	 = O::transform(o, tx);
								VF_CHECK(&orf == &o1, "transform does not return *this");
								for (const O& g : { o1, o2 })
								{
									// axis i is the image of axis i, with unit length
									VF_CHECK(eqv(pt<T>(g.center), m * c, tol), "obb transform: center");
									for (int i = 0; i < 3; i++)
									{
										const P img	 = m.m * r.c[i];
										const P ax	 = pt<T>(g.axes.m[i]);
										const L ext	 = L(g.extents[size_t(i)]);
										VF_CHECK(near(ext, e[i] * len(img), tol), "obb transform: extent %d is %Lg, should be %Lg", i, ext, e[i] * len(img));
										VF_CHECK(eqv(ax, unit(img), tol * 2), "obb transform: axis %d is (%Lg,%Lg,%Lg), should be (%Lg,%Lg,%Lg)", i, ax.x, ax.y, ax.z, unit(img).x, unit(img).y, unit(img).z);
									}
									vf::trans();
								}
							}
						}
			if (kind > 1) continue;
			// planes: the image contains the images of its points
			for (P n : grid(-1, 1))
			{
				if (len2(n) == 0 || !mine_()) continue;
				for (P o : grid(-1, 1))
				{
					vf::at(mi, pk(n), pk(o));
					vf::state();
					const VT un = v3<T>(unit(n));
					const PL p{ v3<T>(o), un };
					PL a = p;
					PL& ar = a.transform(tx);
					const PL b = PL::transform(p, tx);
					VF_CHECK(&ar == &a, "transform does not return *this");
					const P wn = unit(m.m * n), wo = m * o;
					for (const PL& g : { a, b })
					{
						const L l = len(pt<T>(g.normal)), tol = 128 * U<T>;
						VF_CHECK(eqv(pt<T>(g.normal) * (1 / l), wn, tol) && near(L(g.d) / l, -dot(wn, wo), tol), "plane transform: (%Lg,%Lg,%Lg) %Lg, should be (%Lg,%Lg,%Lg) %Lg", L(g.normal.x), L(g.normal.y), L(g.normal.z), L(g.d), wn.x, wn.y, wn.z, -dot(wn, wo));
						if (kind == 0) VF_CHECK(near(l, 1, tol), "plane transform: normal of length %Lg", l);
						vf::trans();
					}
				}
			}
		}
	}
	static void all()
	{
		points();
		append();
		shapes();
		transform();
	}
};

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	const std::string what = vf::args.empty() ? "" : vf::args[0];
	using T =
#if GRP == 1
		float;
#elif GRP == 2
		double;
#elif GRP == 3
		half;
#else
		long double;
#endif
	if (what != "G08") measures<T>::all();
	if (what != "G07") bounds<T>::all();
	return vf::finish();
}
