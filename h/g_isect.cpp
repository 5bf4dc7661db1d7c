// G09 / G10: containment and intersection predicates of all shape pairs over integer grids, against exact separating-axis
// and closest-point references.
#include "geo.h"
using namespace muu;

template <class T> constexpr L BAND = std::is_same_v<T, half> ? 0.05L : 1e-4L; // width of the undecided band for rounded inputs

template <class T> struct contain
{
	using B = bounding_box<T>;
	using S = bounding_sphere<T>;
	using O = oriented_bounding_box<T>;
	using TR = triangle<T>;
	using SG = line_segment<T>;
	using VT = V<T>;

	static void collections()
	{
		vf::group("contains.collection");
		const auto g = grid(-1, 1);
		// every sequence of up to 3 points out of 27 against one box, sphere, obb, triangle and segment
		B bb		 = mbox<T>({ 0, 0, 0 }, { 1, 1, 0 });
		S bs		 = msph<T>({ 0, 0, 0 }, 1);
		O ob		 = mobb<T>({ 0, 0, 0 }, { 1, 0, 1 }, IDENT);
		TR tr		 = mtri<T>({ -1, -1, 0 }, { 1, -1, 0 }, { 0, 1, 0 });
		SG sg		 = mseg<T>({ -1, 0, 0 }, { 1, 0, 0 });
		VT pts[3];
		VF_CHECK(!bb.contains(pts, pts) && !bs.contains(pts, pts) && !ob.contains(pts, pts) && !tr.contains(pts, pts) && !sg.contains(pts, pts), "an empty collection is contained");
		for (size_t i = 0; i < g.size(); i++)
			for (size_t j = 0; j < g.size(); j++)
				for (size_t k = 0; k < g.size(); k++)
				{
					if (!mine_()) continue;
					vf::at(pk(g[i]), pk(g[j]), pk(g[k]));
					const P p[3] = { g[i], g[j], g[k] };
					for (int n = 1; n <= 3; n++)
					{
						bool eb = true, es = true, eo = true, et = true, eg = true;
						for (int q = 0; q < n; q++)
						{
							pts[q] = v3<T>(p[q]);
							eb &= p[q].z == 0;
							es &= len2(p[q]) <= 1;
							eo &= p[q].y == 0;
							et &= p[q].z == 0 && p[q].y >= -1 && 2 * std::fabs(p[q].x) + p[q].y <= 1;
							eg &= p[q].z == 0 && p[q].y == 0;
						}
						VF_CHECK(bb.contains(pts, pts + n) == eb, "box.contains(collection) != %d", eb);
						VF_CHECK(bs.contains(pts, pts + n) == es, "sphere.contains(collection) != %d", es);
						VF_CHECK(ob.contains(pts, pts + n) == eo, "obb.contains(collection) != %d", eo);
						VF_CHECK(tr.contains(pts, pts + n) == et, "triangle.contains(collection) != %d", et);
						VF_CHECK(sg.contains(pts, pts + n) == eg, "segment.contains(collection) != %d", eg);
						vf::state();
						vf::trans(5);
					}
				}
	}
	static void box()
	{
		vf::group("contains.box");
		const auto pts = grid(-4, 4, 0.5L);
		for (P c : grid(-1, 1))
			for (P e : grid(0, 2, 0.5L))
			{
				if (!mine_()) continue;
				const B b	   = mbox<T>(c, e);
				const O o	   = mobb<T>(c, e, IDENT);
				const auto tst = b.collision_tester();
				for (P p : pts)
				{
					vf::at(pk(c), pk(e), pk(p));
					const bool in = std::fabs(p.x - c.x) <= e.x && std::fabs(p.y - c.y) <= e.y && std::fabs(p.z - c.z) <= e.z;
					const VT q	  = v3<T>(p);
					VF_CHECK(b.contains(q) == in && B::contains(b, q) == in, "box contains point: not %d", in);
					VF_CHECK(tst(q) == in, "box tester(point) != %d", in);
					VF_CHECK(o.contains(q) == in && O::contains(o, q) == in, "unrotated obb contains point: not %d", in);
					vf::state();
					vf::trans(5);
				}
			}
		vf::group("contains.box.box");
		for (P e1 : grid(1, 2))
			for (P c : grid(-2, 2))
				for (P e2 : grid(0, 2))
				{
					if (!mine_()) continue;
					vf::at(pk(e1), pk(c), pk(e2));
					const B a = mbox<T>({ 1, 0, -1 }, e1), b = mbox<T>(P{ 1, 0, -1 } + c, e2);
					bool in = true;
					for (int i = 0; i < 3; i++) in &= std::fabs(c[i]) + e2[i] <= e1[i];
					VF_CHECK(a.contains(b) == in && B::contains(a, b) == in, "box contains box: not %d", in);
					vf::state();
					vf::trans(2);
				}
		vf::group("contains.box.sphere");
		for (P e1 : grid(1, 3))
			for (P c : grid(-4, 4))
				for (int r = 1; r <= 4; r++)
				{
					if (!mine_()) continue;
					vf::at(pk(e1), pk(c), r);
					const B a = mbox<T>({ 1, 0, -1 }, e1);
					const S s = msph<T>(P{ 1, 0, -1 } + c, r / 2.0L);
					bool in	  = true;
					for (int i = 0; i < 3; i++) in &= std::fabs(c[i]) + r / 2.0L <= e1[i];
					VF_CHECK(a.contains(s) == in && B::contains(a, s) == in, "box contains sphere: not %d", in);
					// sphere contains box: its furthest corner is inside
					L f = 0;
					for (int i = 0; i < 3; i++) f += (std::fabs(c[i]) + e1[i]) * (std::fabs(c[i]) + e1[i]);
					const S s2	   = msph<T>(P{ 1, 0, -1 } + c, r * 2);
					const bool in2 = f <= L(r) * r * 4;
					VF_CHECK(s2.contains(a) == in2 && S::contains(s2, a) == in2, "sphere contains box: not %d", in2);
					vf::state();
					vf::trans(4);
				}
	}
	static void segs_tris()
	{
		vf::group("contains.segment+triangle");
		const auto g = grid(-2, 2);
		const B bb	 = mbox<T>({ 0, 0.5L, 0 }, { 1, 1.5L, 2 });
		const S bs	 = msph<T>({ 0, 1, 0 }, 2);
		const O ob	 = mobb<T>({ 0, 0.5L, 0 }, { 1, 2, 1.5L }, rotq(1, 1, 0, 0)); // x->x, y->z, z->-y
		const auto inb = [](P p) { return std::fabs(p.x) <= 1 && std::fabs(p.y - 0.5L) <= 1.5L && std::fabs(p.z) <= 2; };
		const auto ins = [](P p) { return len2(p - P{ 0, 1, 0 }) <= 4; };
		for (size_t i = 0; i < g.size(); i++)
			for (size_t j = 0; j < g.size(); j++)
			{
				if (!mine_()) continue;
				vf::at(pk(g[i]), pk(g[j]));
				const VT a = v3<T>(g[i]), b = v3<T>(g[j]);
				const SG s{ a, b };
				const bool eb = inb(g[i]) && inb(g[j]), es = ins(g[i]) && ins(g[j]);
				VF_CHECK(bb.contains(s) == eb && B::contains(bb, s) == eb && B::contains(bb, a, b) == eb, "box contains segment: not %d", eb);
				VF_CHECK(ob.contains(s) == eb && O::contains(ob, s) == eb && O::contains(ob, a, b) == eb, "obb contains segment: not %d", eb);
				VF_CHECK(bs.contains(s) == es && S::contains(bs, s) == es && S::contains(bs, a, b) == es, "sphere contains segment: not %d", es);
				vf::state();
				vf::trans(9);
				for (size_t k = 0; k < g.size(); k += 3)
				{
					const VT c = v3<T>(g[k]);
					const TR t{ a, b, c };
					const bool fb = eb && inb(g[k]), fs = es && ins(g[k]);
					VF_CHECK(bb.contains(t) == fb && B::contains(bb, t) == fb && B::contains(bb, a, b, c) == fb, "box contains triangle: not %d", fb);
					VF_CHECK(ob.contains(t) == fb && O::contains(ob, t) == fb && O::contains(ob, a, b, c) == fb, "obb contains triangle: not %d", fb);
					VF_CHECK(bs.contains(t) == fs && S::contains(bs, t) == fs && S::contains(bs, a, b, c) == fs, "sphere contains triangle: not %d", fs);
					vf::state();
					vf::trans(9);
				}
			}
	}
	static void sphere()
	{
		vf::group("contains.sphere");
		for (P c : grid(-1, 1))
			for (int r = 0; r <= 6; r++)
				for (P p : grid(-4, 4, 0.5L))
				{
					if (!mine_()) continue;
					vf::at(pk(c), r, pk(p));
					const S s	  = msph<T>(c, r / 2.0L);
					const bool in = 4 * len2(p - c) <= L(r) * r;
					VF_CHECK(s.contains(v3<T>(p)) == in && S::contains(s, v3<T>(p)) == in, "sphere contains point: not %d", in);
					vf::state();
					vf::trans(2);
				}
		vf::group("contains.sphere.sphere");
		for (P d : grid(-3, 3))
			for (int r1 = 1; r1 <= 8; r1++)
				for (int r2 = 1; r2 <= 8; r2++)
				{
					if (!mine_()) continue;
					vf::at(pk(d), r1, r2);
					const S a = msph<T>({ 1, -1, 0 }, r1 / 2.0L), b = msph<T>(P{ 1, -1, 0 } + d, r2 / 2.0L);
					// |d| + r2 <= r1
					const L l2	  = 4 * len2(d);
					const L m	  = r1 - r2;
					const bool in = m >= 0 && l2 <= m * m;
					// r1-r2 and |d|^2 are exact but sqrt may not be: internally tangent pairs at irrational distances do not occur
					VF_CHECK(a.contains(b) == in && S::contains(a, b) == in, "sphere contains sphere: not %d", in);
					vf::state();
					vf::trans(2);
				}
	}
	static void obb()
	{
		vf::group("contains.obb");
		const R3 rs[] = { rotq(1, 0, 0, 1), rotq(1, 1, 1, 1), rotq(2, 1, 0, 0), rotq(2, 0, 1, 1), rotq(3, 1, 2, 1), rotq(0, 1, 1, 0), rotq(1, -2, 0, 3) };
		int ri		  = 0;
		for (const R3& r : rs)
		{
			ri++;
			for (P e : grid(1, 3))
				for (P p : grid(-3, 3))
				{
					if (!mine_()) continue;
					vf::at(ri, pk(e), pk(p));
					const P c{ 1, 0, -1 };
					const O o = mobb<T>(c, e * 0.5L, r);
					L m		  = -1e30L;
					for (int i = 0; i < 3; i++) m = std::max(m, std::fabs(dot(p - c, r.c[i])) - e[i] / 2);
					if (std::fabs(m) < BAND<T>) continue;
					const bool in = m < 0;
					VF_CHECK(o.contains(v3<T>(p)) == in && O::contains(o, v3<T>(p)) == in, "obb contains point: not %d", in);
					vf::state();
					vf::trans(2);
				}
			// box contains obb: all its corners
			vf::group("contains.box.obb");
			for (P e : grid(1, 3))
				for (P c : grid(-2, 2))
				{
					if (!mine_()) continue;
					vf::at(ri, pk(e), pk(c));
					const P be{ 2, 3, 2.5L };
					const B b = mbox<T>({ 0, 0, 0 }, be);
					const O o = mobb<T>(c, e * 0.5L, r);
					const Hull h = hull_box(c, e * 0.5L, r);
					L m			 = -1e30L;
					for (int i = 0; i < 8; i++)
						for (int k = 0; k < 3; k++) m = std::max(m, std::fabs(h.v[i][k]) - be[k]);
					if (std::fabs(m) < BAND<T>) continue;
					const bool in = m < 0;
					VF_CHECK(b.contains(o) == in && B::contains(b, o) == in, "box contains obb: not %d", in);
					vf::state();
					vf::trans(2);
				}
			vf::group("contains.obb");
		}
	}
	static void tri()
	{
		vf::group("contains.triangle");
		const auto g = grid(-1, 1), q = grid(-2, 2, 0.5L);
		const T eps = T(std::is_same_v<T, half> ? 0.05f : 1e-3f);
		for (size_t i = 0; i < g.size(); i++)
			for (size_t j = 0; j < g.size(); j++)
				for (size_t k = 0; k < g.size(); k++)
				{
					const P n = cross(g[j] - g[i], g[k] - g[i]);
					if (len2(n) == 0 || !mine_()) continue;
					const VT a = v3<T>(g[i]), b = v3<T>(g[j]), c = v3<T>(g[k]);
					const TR t{ a, b, c };
					for (P p : q)
					{
						vf::at(pk(g[i]), pk(g[j]), pk(g[k]), pk(p));
						const L dist = dot(n, p - g[i]) / len(n);
						const bool co = dist == 0;
						const VT x	  = v3<T>(p);
						VF_CHECK(t.coplanar(x, eps) == co && TR::coplanar(t, x, eps) == co && TR::coplanar(a, b, c, x, eps) == co, "coplanar != %d", co);
						if constexpr (!std::is_same_v<T, half>)
							VF_CHECK(t.coplanar(x) == co && TR::coplanar(t, x) == co && TR::coplanar(a, b, c, x) == co, "coplanar (default epsilon) != %d", co);
						const bool in = co && closest_tri(g[i], g[j], g[k], p) == p;
						VF_CHECK(t.contains(x, eps) == in && TR::contains(t, x, eps) == in && TR::contains(a, b, c, x, eps) == in, "triangle contains point: not %d", in);
						if constexpr (!std::is_same_v<T, half>)
							VF_CHECK(t.contains(x) == in && TR::contains(t, x) == in && TR::contains(a, b, c, x) == in, "triangle contains point (default epsilon): not %d", in);
						vf::state();
						vf::trans(6);
					}
				}
		vf::group("contains.triangle.segment");
		const P tri[3] = { { 0, 0, 0 }, { 2, 0, 2 }, { 0, 2, 2 } };
		const TR t	   = mtri<T>(tri[0], tri[1], tri[2]);
		const auto s   = grid(-1, 2);
		for (P a : s)
			for (P b : s)
			{
				if (!mine_()) continue;
				vf::at(pk(a), pk(b));
				const auto in0 = [&](P p) { return dot(cross(tri[1], tri[2]), p) == 0 && closest_tri(tri[0], tri[1], tri[2], p) == p; };
				const bool in  = in0(a) && in0(b);
				const SG sg	   = mseg<T>(a, b);
				VF_CHECK(t.contains(sg, eps) == in && TR::contains(t, sg, eps) == in && TR::contains(t[0], t[1], t[2], sg[0], sg[1], eps) == in, "triangle contains segment: not %d", in);
				if constexpr (!std::is_same_v<T, half>)
					VF_CHECK(t.contains(sg) == in && TR::contains(t, sg) == in && TR::contains(t[0], t[1], t[2], sg[0], sg[1]) == in, "triangle contains segment (default epsilon): not %d", in);
				vf::state();
				vf::trans(3);
			}
	}
	static void seg()
	{
		vf::group("contains.segment");
		const auto g = grid(-2, 2), q = grid(-2, 2, 0.5L);
		const T eps = T(std::is_same_v<T, half> ? 0.004f : 1e-3f);
		for (P a : g)
			for (P b : g)
			{
				if (a == b || !mine_()) continue;
				const SG s = mseg<T>(a, b);
				for (P p : q)
				{
					vf::at(pk(a), pk(b), pk(p));
					const P x	  = cross(b - a, p - a);
					const bool cl = len2(x) == 0;
					const bool in = cl && closest_seg(a, b, p) == p;
					const VT v	  = v3<T>(p);
					VF_CHECK(s.colinear(v, eps) == cl && SG::colinear(s, v, eps) == cl, "segment colinear with point: not %d", cl);
					VF_CHECK(s.contains(v, eps) == in && SG::contains(s, v, eps) == in && SG::contains(s[0], s[1], v, eps) == in, "segment contains point: not %d", in);
					if constexpr (!std::is_same_v<T, half>)
					{
						VF_CHECK(s.colinear(v) == cl && SG::colinear(s, v) == cl, "segment colinear with point (default epsilon): not %d", cl);
						VF_CHECK(s.contains(v) == in && SG::contains(s, v) == in && SG::contains(s[0], s[1], v) == in, "segment contains point (default epsilon): not %d", in);
					}
					vf::state();
					vf::trans(5);
				}
			}
		vf::group("contains.segment.segment");
		const P froms[] = { { 0, 0, 0 }, { -1, 1, 0 } };
		const P tos[]	= { { 2, 0, 0 }, { 1, -1, 2 }, { 2, 2, 2 }, { 0, 1, 2 } };
		for (P a : froms)
			for (P b : tos)
				for (P c : g)
					for (P d : g)
					{
						if (c == d || !mine_()) continue;
						vf::at(pk(a), pk(b), pk(c), pk(d));
						const SG s = mseg<T>(a, b), t = mseg<T>(c, d);
						const bool cl = len2(cross(b - a, c - a)) == 0 && len2(cross(b - a, d - a)) == 0;
						const bool in = cl && closest_seg(a, b, c) == c && closest_seg(a, b, d) == d;
						const bool cp = dot(cross(b - a, c - a), d - a) == 0;
						VF_CHECK(s.colinear(t, eps) == cl && SG::colinear(s, t, eps) == cl, "segments colinear: not %d", cl);
						VF_CHECK(s.contains(t, eps) == in && SG::contains(s, t, eps) == in, "segment contains segment: not %d", in);
						VF_CHECK(s.coplanar(t, eps) == cp && SG::coplanar(s, t, eps) == cp, "segments coplanar: not %d", cp);
						if constexpr (!std::is_same_v<T, half>)
						{
							VF_CHECK(s.colinear(t) == cl && SG::colinear(s, t) == cl, "segments colinear (default epsilon): not %d", cl);
							VF_CHECK(s.contains(t) == in && SG::contains(s, t) == in, "segment contains segment (default epsilon): not %d", in);
							VF_CHECK(s.coplanar(t) == cp && SG::coplanar(s, t) == cp, "segments coplanar (default epsilon): not %d", cp);
						}
						vf::state();
						vf::trans(6);
					}
	}
	static void pln()
	{
		vf::group("contains.plane");
		using PL = plane<T>;
		const P ns[] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 1, 2, 2 }, { -2, 1, 2 }, { 0, 3, 4 }, { -4, 0, 3 }, { 1, 1, 1 }, { 2, -3, 1 } };
		const auto g = grid(-2, 2);
		for (P n : ns)
			for (int d = -2; d <= 2; d++)
			{
				const L l  = len(n);
				const PL p{ V<T>{ T(n.x / l), T(n.y / l), T(n.z / l) }, T(d / l) };
				const T eps = T(std::is_same_v<T, half> ? 0.004f : 1e-3f);
				for (P a : g)
				{
					const L da = dot(n, a) + d;
					if (mine_())
					{
						vf::at(pk(n), d, pk(a));
						const bool in = da == 0;
						VF_CHECK(p.contains(v3<T>(a), eps) == in && PL::contains(p, v3<T>(a), eps) == in, "plane contains point: not %d", in);
						if constexpr (!std::is_same_v<T, half>)
							VF_CHECK(p.contains(v3<T>(a)) == in && PL::contains(p, v3<T>(a)) == in, "plane contains point (default epsilon): not %d", in);
						vf::state();
						vf::trans(2);
					}
					if (da == 0 && l != 1) continue; // on the plane up to rounding
					for (P b : g)
					{
						const L db = dot(n, b) + d;
						if ((db == 0 && l != 1) || !mine_()) continue;
						vf::at(pk(n), d, pk(a), pk(b));
						const bool same = (da >= 0) == (db >= 0);
						VF_CHECK(p.same_side(v3<T>(a), v3<T>(b)) == same && PL::same_side(p, v3<T>(a), v3<T>(b)) == same, "same_side != %d", same);
						vf::state();
						vf::trans(2);
						for (size_t k = 0; k < g.size(); k += 4)
						{
							const L dc = dot(n, g[k]) + d;
							if (dc == 0 && l != 1) continue;
							const bool s3 = same && (da >= 0) == (dc >= 0);
							VF_CHECK(p.same_side(v3<T>(a), v3<T>(b), v3<T>(g[k])) == s3, "same_side of three != %d", s3);
							VF_CHECK(PL::same_side(p, v3<T>(a), v3<T>(b), v3<T>(a), v3<T>(g[k])) == s3, "same_side of four != %d", s3);
							vf::state();
							vf::trans(2);
						}
					}
				}
			}
	}
	static void all()
	{
		collections();
		box();
		segs_tris();
		sphere();
		obb();
		tri();
		seg();
		pln();
	}
};

// =====================================================================================================================
template <class T> struct isect
{
	using B = bounding_box<T>;
	using S = bounding_sphere<T>;
	using O = oriented_bounding_box<T>;
	using TR = triangle<T>;
	using SG = line_segment<T>;
	using PL = plane<T>;
	using VT = V<T>;
	static constexpr bool wide = sizeof(T) >= 8;

	static void boxes()
	{
		vf::group("intersects.box.box");
		for (P e1 : grid(0, 2))
			for (P c : grid(-4, 4))
				for (P e2 : grid(0, 2))
				{
					if (!mine_()) continue;
					vf::at(pk(e1), pk(c), pk(e2));
					const B a = mbox<T>({ 1, 0, -1 }, e1), b = mbox<T>(P{ 1, 0, -1 } + c, e2);
					bool x = true;
					for (int i = 0; i < 3; i++) x &= std::fabs(c[i]) <= e1[i] + e2[i];
					VF_CHECK(a.intersects(b) == x && B::intersects(a, b) == x && b.intersects(a) == x, "boxes intersect: not %d", x);
					VF_CHECK(a.collision_tester()(b) == x && a.collision_tester()(b.collision_tester()) == x, "box tester(box) != %d", x);
					vf::state();
					vf::trans(5);
				}
		vf::group("intersects.box.sphere");
		for (P e1 : grid(0, 2))
			for (P c : grid(-5, 5))
				for (int r = 0; r <= 5; r++)
				{
					if (!mine_()) continue;
					vf::at(pk(e1), pk(c), r);
					const B a = mbox<T>({ 1, 0, -1 }, e1);
					const S s = msph<T>(P{ 1, 0, -1 } + c, r);
					L d2	  = 0;
					for (int i = 0; i < 3; i++)
					{
						const L o = std::max(L(0), std::fabs(c[i]) - e1[i]);
						d2 += o * o;
					}
					const bool x = d2 <= L(r) * r;
					VF_CHECK(a.intersects(s) == x && B::intersects(a, s) == x && s.intersects(a) == x && S::intersects(s, a) == x, "box x sphere: not %d", x);
					VF_CHECK(a.collision_tester()(s) == x && s.collision_tester()(a) == x && a.collision_tester()(s.collision_tester()) == x && s.collision_tester()(a.collision_tester()) == x, "testers box x sphere != %d", x);
					const O o = mobb<T>({ 1, 0, -1 }, e1, IDENT);
					VF_CHECK(o.intersects(s) == x && O::intersects(o, s) == x && s.intersects(o) == x && S::intersects(s, o) == x, "unrotated obb x sphere: not %d", x);
					vf::state();
					vf::trans(12);
				}
		vf::group("intersects.sphere.sphere");
		for (P d : grid(-4, 4))
			for (int r1 = 0; r1 <= 4; r1++)
				for (int r2 = 0; r2 <= 4; r2++)
				{
					if (!mine_()) continue;
					vf::at(pk(d), r1, r2);
					const S a = msph<T>({ 1, -1, 0 }, r1), b = msph<T>(P{ 1, -1, 0 } + d, r2);
					const bool x = len2(d) <= L(r1 + r2) * (r1 + r2);
					VF_CHECK(a.intersects(b) == x && S::intersects(a, b) == x && b.intersects(a) == x, "spheres intersect: not %d", x);
					VF_CHECK(a.collision_tester()(b) == x && a.collision_tester()(b.collision_tester()) == x, "sphere tester(sphere) != %d", x);
					vf::state();
					vf::trans(5);
				}
	}
	static void box_seg()
	{
		vf::group("intersects.box.segment");
		const P es[] = { { 1, 1, 1 }, { 1, 2, 0.5L }, { 0, 1, 2 }, { 1.5L, 0.5L, 1 } };
		const P cs[] = { { 0, 0, 0 }, { 1, 0, -1 }, { 0.5L, 0.5L, 0 }, { 0, -1, 0.5L } };
		const auto g = grid(-3, 3);
		for (int k = 0; k < 4; k++)
			for (P a : g)
				for (P b : g)
				{
					if (!mine_()) continue;
					vf::at(k, pk(a), pk(b));
					const L gp = gap(hull_seg(a, b), hull_box(cs[k], es[k], IDENT));
					const bool x = gp <= 0;
					const B bb	 = mbox<T>(cs[k], es[k]);
					const SG s	 = mseg<T>(a, b);
					VF_CHECK(bb.intersects(s) == x && B::intersects(bb, s) == x && B::intersects(bb, s[0], s[1]) == x, "box x segment: not %d", x);
					VF_CHECK(s.intersects(bb) == x && SG::intersects(s, bb) == x, "segment x box: not %d", x);
					vf::state();
					vf::trans(5);
				}
	}
	static void planes()
	{
		vf::group("intersects.plane.segment");
		const P ns[] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 1, 2, 2 }, { -2, 1, 2 }, { 0, 3, 4 }, { -4, 0, 3 }, { 1, 1, 1 }, { 2, -3, 1 } };
		const auto g = grid(-2, 2);
		for (P n : ns)
			for (int d = -2; d <= 2; d++)
			{
				const L l  = len(n);
				const PL p{ V<T>{ T(n.x / l), T(n.y / l), T(n.z / l) }, T(d / l) };
				for (P a : g)
				{
					const L da = dot(n, a) + d;
					for (P b : g)
					{
						const L db = dot(n, b) + d;
						if ((da == 0 || db == 0) && l != 1) continue; // touching up to rounding
						if (!mine_()) continue;
						vf::at(pk(n), d, pk(a), pk(b));
						const bool x = std::min(da, db) <= 0 && std::max(da, db) >= 0;
						const SG s	 = mseg<T>(a, b);
						VF_CHECK(p.intersects(s) == x && PL::intersects(p, s) == x && s.intersects(p) == x && SG::intersects(s, p) == x, "plane x segment: not %d", x);
						vf::state();
						vf::trans(4);
					}
				}
			}
		vf::group("intersects.plane.box");
		for (P n : ns)
			for (int d = -4; d <= 4; d++)
				for (P e : grid(0, 2))
					for (P c : grid(-2, 2))
					{
						if (!mine_()) continue;
						const L l = len(n);
						const L m = std::fabs(dot(n, c) + d) - (std::fabs(n.x) * e.x + std::fabs(n.y) * e.y + std::fabs(n.z) * e.z);
						if (m == 0 && l != 1) continue;
						vf::at(pk(n), d, pk(e), pk(c));
						const PL p{ V<T>{ T(n.x / l), T(n.y / l), T(n.z / l) }, T(d / l) };
						const B b	 = mbox<T>(c, e);
						const bool x = m <= 0;
						VF_CHECK(p.intersects(b) == x && PL::intersects(p, b) == x && b.intersects(p) == x && B::intersects(b, p) == x, "plane x box: not %d", x);
						vf::state();
						vf::trans(4);
					}
	}
	static void tri_box()
	{
		vf::group("intersects.triangle.box");
		const P es[] = { { 1, 1, 1 }, { 0.5L, 1.5L, 1 }, { 1, 0.5L, 0.5L } };
		const P cs[] = { { 0, 0, 0 }, { 0.5L, 0, 1 }, { 0.5L, 0.5L, 0.5L } };
		const auto g = grid(-2, 2);
		const size_t step = vf::thorough ? 1 : 2;
		for (int k = 0; k < 3; k++)
		{
			const B b	   = mbox<T>(cs[k], es[k]);
			const O o	   = mobb<T>(cs[k], es[k], IDENT);
			const auto bt  = b.collision_tester();
			const Hull hb  = hull_box(cs[k], es[k], IDENT);
			for (size_t i = 0; i < g.size(); i++)
				for (size_t j = i + 1; j < g.size(); j++)
				{
					if (!mine_()) continue;
					for (size_t q = j + 1 + (i + j) % step; q < g.size(); q += step)
					{
						const P n = cross(g[j] - g[i], g[q] - g[i]);
						if (len2(n) == 0) continue;
						vf::at(k, pk(g[i]), pk(g[j]), pk(g[q]));
						const L gp = gap(hull_tri(g[i], g[j], g[q]), hb);
						if (gp == 0) continue; // the triangle's normal is rounded
						const bool x = gp < 0;
						const TR t	 = (i + q) & 1 ? mtri<T>(g[i], g[j], g[q]) : mtri<T>(g[q], g[i], g[j]);
						VF_CHECK(b.intersects(t) == x && B::intersects(b, t) == x && B::intersects(b, t[0], t[1], t[2]) == x, "box x triangle: not %d", x);
						VF_CHECK(t.intersects(b) == x && TR::intersects(t, b) == x && TR::intersects(t[0], t[1], t[2], b) == x, "triangle x box: not %d", x);
						VF_CHECK(bt(t) == x && bt(t[0], t[1], t[2]) == x && bt(t.collision_tester()) == x, "box tester(triangle) != %d", x);
						VF_CHECK(o.intersects(t) == x && O::intersects(o, t) == x && O::intersects(o, t[0], t[1], t[2]) == x, "obb x triangle: not %d", x);
						VF_CHECK(t.intersects(o) == x && TR::intersects(t, o) == x && TR::intersects(t[0], t[1], t[2], o) == x, "triangle x obb: not %d", x);
						vf::state();
						vf::trans(15);
					}
				}
		}
	}
	static void tri_sphere()
	{
		vf::group("intersects.triangle.sphere");
		const P cs[] = { { 0, 0, 0 }, { 0.5L, 0, 1 }, { 2, 1, -1 } };
		const L rs[] = { 1, 1.5L, 2 };
		const auto g = grid(-2, 2);
		const size_t step = vf::thorough ? 1 : 2;
		for (int k = 0; k < 3; k++)
		{
			const S s = msph<T>(cs[k], rs[k]);
			for (size_t i = 0; i < g.size(); i++)
				for (size_t j = i + 1; j < g.size(); j++)
				{
					if (!mine_()) continue;
					for (size_t q = j + 1 + (i + j) % step; q < g.size(); q += step)
					{
						if (len2(cross(g[j] - g[i], g[q] - g[i])) == 0) continue;
						vf::at(k, pk(g[i]), pk(g[j]), pk(g[q]));
						const L m = len(closest_tri(g[i], g[j], g[q], cs[k]) - cs[k]) - rs[k];
						if (std::fabs(m) < BAND<T>) continue;
						const bool x = m < 0;
						const TR t	 = (i + q) & 1 ? mtri<T>(g[i], g[j], g[q]) : mtri<T>(g[q], g[i], g[j]);
						VF_CHECK(s.intersects(t) == x && S::intersects(s, t) == x && S::intersects(s, t[0], t[1], t[2]) == x, "sphere x triangle: not %d", x);
						VF_CHECK(t.intersects(s) == x && TR::intersects(t, s) == x && TR::intersects(t[0], t[1], t[2], s) == x, "triangle x sphere: not %d", x);
						vf::state();
						vf::trans(6);
					}
				}
		}
	}
	static void obbs()
	{
		const R3 rs[] = { rotq(1, 0, 0, 0), rotq(1, 0, 0, 1), rotq(1, 1, 1, 1), rotq(2, 1, 0, 0), rotq(2, 0, 1, 1), rotq(3, 1, 2, 1), rotq(5, -2, 0, 2), rotq(1, -2, 0, 3) };
		const int NR  = 8;
		const P es[]  = { { 1, 1, 1 }, { 3, 0.5L, 0.5L }, { 0.5L, 2, 2 } };
		vf::group("intersects.obb.sphere");
		for (int i = 0; i < NR; i++)
			for (P e : es)
				for (P c : grid(-4, 4))
					for (int r = 1; r <= 4; r++)
					{
						if (!mine_()) continue;
						vf::at(i, pk(e), pk(c), r);
						const P oc{ 1, 0, -1 };
						const L m = len(closest_box(oc, e, rs[i], oc + c) - (oc + c)) - r * 0.75L;
						if (std::fabs(m) < BAND<T>) continue;
						const bool x = m < 0;
						const O o	 = mobb<T>(oc, e, rs[i]);
						const S s	 = msph<T>(oc + c, r * 0.75L);
						VF_CHECK(o.intersects(s) == x && O::intersects(o, s) == x && s.intersects(o) == x && S::intersects(s, o) == x, "obb x sphere: not %d", x);
						vf::state();
						vf::trans(4);
					}
		vf::group("intersects.obb.box");
		for (int i = 0; i < NR; i++)
			for (P e : es)
				for (P be : es)
					for (P c : grid(-4, 4))
					{
						if (!mine_()) continue;
						vf::at(i, pk(e), pk(be), pk(c));
						const P oc{ 1, 0, -1 };
						const L gp = gap(hull_box(oc, e, rs[i]), hull_box(oc + c, be, IDENT));
						if (std::fabs(gp) < BAND<T>) continue;
						const bool x = gp < 0;
						const O o	 = mobb<T>(oc, e, rs[i]);
						const B b	 = mbox<T>(oc + c, be);
						VF_CHECK(o.intersects(b) == x && O::intersects(o, b) == x && b.intersects(o) == x && B::intersects(b, o) == x, "obb x box: not %d (gap %.4Lf)", x, gp);
						vf::state();
						vf::trans(4);
					}
		vf::group("intersects.obb.obb");
		for (int i = 0; i < NR; i++)
			for (int j = 1; j < NR; j++)
				for (P e : es)
					for (P be : es)
						for (P c : grid(-3, 3))
						{
							if (!mine_()) continue;
							vf::at(i, j, pk(e), pk(be), pk(c));
							const P oc{ 1, 0, -1 };
							const L gp = gap(hull_box(oc, e, rs[i]), hull_box(oc + c, be, rs[j]));
							if (std::fabs(gp) < BAND<T>) continue;
							const bool x = gp < 0;
							const O o = mobb<T>(oc, e, rs[i]), b = mobb<T>(oc + c, be, rs[j]);
							VF_CHECK(o.intersects(b) == x && O::intersects(o, b) == x && b.intersects(o) == x, "obb x obb: not %d (gap %.4Lf)", x, gp);
							vf::state();
							vf::trans(3);
						}
		vf::group("intersects.obb.triangle");
		const auto g = grid(-2, 2, 1.5L);
		for (int i = 1; i < NR; i++)
			for (P e : es)
				for (size_t a = 0; a < g.size(); a += 2)
					for (size_t b = a + 1; b < g.size(); b += 3)
						for (size_t c = b + 1; c < g.size(); c += 3)
						{
							if (!mine_()) continue;
							if (len2(cross(g[b] - g[a], g[c] - g[a])) == 0) continue;
							vf::at(i, pk(e), pk(g[a]), pk(g[b]), pk(g[c]));
							const P oc{ 1, 0, -1 };
							const L gp = gap(hull_box(oc, e, rs[i]), hull_tri(g[a], g[b], g[c]));
							if (std::fabs(gp) < BAND<T>) continue;
							const bool x = gp < 0;
							const O o	 = mobb<T>(oc, e, rs[i]);
							const TR t	 = mtri<T>(g[a], g[b], g[c]);
							VF_CHECK(o.intersects(t) == x && O::intersects(o, t) == x && O::intersects(o, t[0], t[1], t[2]) == x, "obb x triangle: not %d", x);
							VF_CHECK(t.intersects(o) == x && TR::intersects(t, o) == x && TR::intersects(t[0], t[1], t[2], o) == x, "triangle x obb: not %d", x);
							vf::state();
							vf::trans(6);
						}
	}
	// clip a triangle by the plane n.p = d: the segment of the triangle in that plane as a parameter range along dir
	static bool clip(const P* t, P n, L d, P dir, L& lo, L& hi)
	{
		lo = 1e30L, hi = -1e30L;
		for (int i = 0; i < 3; i++)
		{
			const P a = t[i], b = t[(i + 1) % 3];
			const L da = dot(n, a) - d, db = dot(n, b) - d;
			if (da == 0) lo = std::min(lo, dot(dir, a)), hi = std::max(hi, dot(dir, a));
			if ((da < 0 && db > 0) || (da > 0 && db < 0))
			{
				const L x = dot(dir, a + (b - a) * (da / (da - db)));
				lo = std::min(lo, x), hi = std::max(hi, x);
			}
		}
		return lo <= hi;
	}
	static void tri_tri()
	{
		vf::group("intersects.triangle.triangle");
		const P t1s[][3] = { { { -2, -1, 0 }, { 2, -1, 0 }, { 0, 2, 0 } }, { { 0, 0, 0 }, { 2, 1, -1 }, { -1, 1, 2 } }, { { -1, 0, -2 }, { 1, 0, -2 }, { 1, 0, 1 } },
							 { { 0, -1, -1 }, { 0, 1, 1 }, { 0, 1, -1 } }, { { -2, -2, -2 }, { 2, 1, 0 }, { 1, 2, 1 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } };
		const auto g	 = grid(-2, 2);
		// half: products of many coordinate differences overflow for larger triangles, so those are scaled down
		constexpr L sc = std::is_same_v<T, half> ? 0.5L : 1;
		const size_t step = vf::thorough ? 1 : 3;
		int ti			 = 0;
		for (const auto& t1 : t1s)
		{
			ti++;
			const Hull h1 = hull_tri(t1[0], t1[1], t1[2]);
			const P n1	  = cross(t1[1] - t1[0], t1[2] - t1[0]);
			const TR A	  = mtri<T>(t1[0] * sc, t1[1] * sc, t1[2] * sc);
			for (size_t i = 0; i < g.size(); i++)
				for (size_t j = i + 1; j < g.size(); j++)
				{
					if (!mine_()) continue;
					for (size_t k = j + 1 + (i + j) % step; k < g.size(); k += step)
					{
						const P t2[3] = { g[i], g[j], g[k] };
						const P n2	  = cross(t2[1] - t2[0], t2[2] - t2[0]);
						if (len2(n2) == 0) continue;
						vf::at(ti, pk(t2[0]), pk(t2[1]), pk(t2[2]));
						const L gp = gap(h1, hull_tri(t2[0], t2[1], t2[2]));
						const TR C = (i + k) & 1 ? mtri<T>(t2[0] * sc, t2[1] * sc, t2[2] * sc) : mtri<T>(t2[2] * sc, t2[0] * sc, t2[1] * sc);
						const P dir = cross(n1, n2);
						const bool flat = len2(dir) == 0; // parallel planes
						// touching is decided exactly by the boolean overloads on these small integers (T wide enough); the
						// overloads that build the segment divide, so for them touching stays undecided unless flat
						const bool x = gp <= 0;
						if (gp != 0 || wide)
						{
							VF_CHECK(A.intersects(C) == x && TR::intersects(A, C) == x, "triangle x triangle: not %d (gap %.4Lf)", x, gp);
							VF_CHECK(C.intersects(A) == x, "triangle x triangle (swapped): not %d (gap %.4Lf)", x, gp);
						}
						std::optional<line_segment<T>> s1{ line_segment<T>::constants::zero }, s2{ line_segment<T>::constants::zero }, s3{ line_segment<T>::constants::zero };
						const bool r1 = A.intersects(C, s1), r2 = TR::intersects(A, C, s2), r3 = C.intersects(A, s3);
						if (gp != 0)
							VF_CHECK(r1 == x && r2 == x && r3 == x, "triangle x triangle with segment: %d %d %d not %d (gap %.4Lf)", r1, r2, r3, x, gp);
						VF_CHECK(r1 || !s1, "a segment without an intersection");
						VF_CHECK(r2 || !s2, "a segment without an intersection");
						VF_CHECK(r3 || !s3, "a segment without an intersection");
						vf::state();
						vf::trans(6);
						if (gp > 0) continue;
						if (flat)
						{
							VF_CHECK(!s1 && !s2 && !s3, "coplanar triangles produced a segment");
							continue;
						}
						L alo, ahi, blo, bhi;
						if (!clip(t1, n2, dot(n2, t2[0]), dir, alo, ahi) || !clip(t2, n1, dot(n1, t1[0]), dir, blo, bhi)) continue;
						const L lo = std::max(alo, blo) / len2(dir), hi = std::min(ahi, bhi) / len2(dir);
						if (lo > hi) continue;
						// the point of the common line with parameter 0
						const L d1 = dot(n1, t1[0]), d2 = dot(n2, t2[0]);
						const P base = (cross(n2, dir) * d1 + cross(dir, n1) * d2) * (1 / len2(dir));
						const P e0 = (base + dir * lo) * sc, e1 = (base + dir * hi) * sc;
						for (const auto* s : { &s1, &s2, &s3 })
						{
							if (gp == 0 && !*s) continue;
							VF_CHECK(bool(*s), "no segment for properly intersecting triangles");
							if (!*s) continue;
							const P a = pt<T>((*s)->points[0]), b = pt<T>((*s)->points[1]);
							const L tol = 2000 * ulp<T>();
							VF_CHECK((near(a, e0, tol) && near(b, e1, tol)) || (near(a, e1, tol) && near(b, e0, tol)), "intersection segment (%Lf,%Lf,%Lf)-(%Lf,%Lf,%Lf) != (%Lf,%Lf,%Lf)-(%Lf,%Lf,%Lf)", a.x, a.y, a.z, b.x, b.y, b.z, e0.x, e0.y, e0.z, e1.x, e1.y, e1.z);
						}
					}
				}
		}
	}
	static void sat()
	{
		vf::group("sat_tester");
		using ST = sat_tester<T, 3>;
		const auto g = grid(-1, 1);
		const P axs[] = { { 1, 0, 0 }, { 1, -2, 0 }, { -1, 1, 2 } };
		for (P ax : axs)
			for (P a : g)
				for (P b : g)
					for (P c : g)
					{
						if (!mine_()) continue;
						vf::at(pk(ax), pk(a), pk(b), pk(c));
						const VT m = v3<T>(ax);
						const VT p[3] = { v3<T>(a), v3<T>(b), v3<T>(c) };
						const L d[3] = { dot(ax, a), dot(ax, b), dot(ax, c) };
						const L lo = std::min({ d[0], d[1], d[2] }), hi = std::max({ d[0], d[1], d[2] });
						const auto ok = [&](const ST& s) { return L(s.min) == lo && L(s.max) == hi; };
						VF_CHECK(ok(ST{ m, p[0], p[1], p[2] }) && ok(ST{ m, p }), "projection range wrong");
						ST s;
						s.add(m, p[0]).add(m, p[1], p[2]);
						VF_CHECK(ok(s), "added range wrong");
						s.reset().add(m, p);
						VF_CHECK(ok(s), "added array wrong");
						s.reset().add(m, p, p + 3);
						VF_CHECK(ok(s), "added pointer range wrong");
						s.reset().add(m, p, p).add(m, p[0], p[1], p[2]);
						VF_CHECK(ok(s), "added points wrong");
						ST one{ T(d[0]) };
						one.add(m, p[1]).add(m, p[2]);
						VF_CHECK(ok(one), "range from a value wrong");
						if (ax.y == 0)
						{
							using X = index_tag<0>;
							VF_CHECK(ok(ST{ X{}, p[0], p[1], p[2] }) && ok(ST{ X{}, p }), "axis range wrong");
							ST t;
							t.add(X{}, p[0]).add(X{}, p, p + 3).add(X{}, p[1], p[2]);
							VF_CHECK(ok(t), "axis range wrong");
							ST y{ index_tag<1>{}, p[0], p[1], p[2] }, z{ index_tag<2>{}, p };
							VF_CHECK(L(y.min) == std::min({ a.y, b.y, c.y }) && L(y.max) == std::max({ a.y, b.y, c.y }), "y range wrong");
							VF_CHECK(L(z.min) == std::min({ a.z, b.z, c.z }) && L(z.max) == std::max({ a.z, b.z, c.z }), "z range wrong");
						}
						for (int v = -4; v <= 4; v++)
						{
							VF_CHECK(s(T(v)) == (lo <= v && v <= hi), "contains value %d wrong", v);
							for (int w = v; w <= 4; w++)
							{
								const bool x = lo <= w && hi >= v;
								VF_CHECK(s(T(v), T(w)) == x, "overlaps range [%d, %d] wrong", v, w);
								ST o{ T(v) };
								o.add(VT{ T(1), T(0), T(0) }, VT{ T(w), T(5), T(5) });
								VF_CHECK(s(o) == x && o(s) == x, "overlaps tester [%d, %d] wrong", v, w);
							}
						}
						vf::state();
						vf::trans(100);
					}
	}
	static void all()
	{
		boxes();
		box_seg();
		planes();
		tri_box();
		tri_sphere();
		obbs();
		tri_tri();
		sat();
	}
};

int main(int argc, char** argv)
{
	vf::init(argc, argv);
	const std::string what = vf::args.empty() ? "" : vf::args[0];
	using T =
#if GRP == 1
		float;
#elif GRP == 2
		double;
#elif GRP == 3
		half;
#else
		long double;
#endif
	if (what != "G10") contain<T>::all();
	if (what != "G09") isect<T>::all();
	return vf::finish();
}
