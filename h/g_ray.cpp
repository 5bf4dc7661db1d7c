// Rays against planes, triangles, spheres and boxes over lattices of origins and directions (G11), compared with the
// exact first crossing in long double. Directions are unit vectors rounded to the scalar type and the oracle uses the
// rounded ones; cases closer to a decision boundary than that rounding explains are accepted either way, but a reported
// distance must always be the right one and never NaN.
#include "geo.h"
using muu::half;
template <class T> constexpr L EPS = std::max(L(muu::default_epsilon<T>), ulp<T>());
static L maxabs(P p) { return std::max({ std::fabs(p.x), std::fabs(p.y), std::fabs(p.z) }); }

template <class T> struct rays
{
	using R	 = muu::ray<T>;
	using VT = V<T>;
	using S	 = muu::bounding_sphere<T>;
	using B	 = muu::bounding_box<T>;
	using TR = muu::triangle<T>;
	using PL = muu::plane<T>;
	static L val(const std::optional<T>& o) { return o ? L(*o) : -1; }

	struct dirs_t
	{
		P raw;
		VT v;
		P p; // what v holds
	};
	static const std::vector<dirs_t>& dirs()
	{
		static std::vector<dirs_t> d;
		if (d.empty())
			for (P g : vf::thorough ? grid(-3, 3) : grid(-2, 2))
			{
				if (len2(g) == 0) continue;
				bool dup = false;
				for (int k = 2; k <= 3; k++) dup |= int(g.x) % k == 0 && int(g.y) % k == 0 && int(g.z) % k == 0;
				if (dup) continue; // twice a shorter one
				dirs_t x;
				x.raw = g;
				x.v	  = v3<T>(unit(g));
				x.p	  = pt<T>(x.v);
				d.push_back(x);
			}
		return d;
	}
	static std::vector<P> origins() { return vf::thorough ? grid(-10, 10, 0.5L) : grid(-6, 6, 0.5L); }

	// must: 1 hit, 0 no hit, 2 either; want: the distance if hit
	static void judge(const char* what, const std::optional<T>& a, const std::optional<T>& b, int must, L want, L tol)
	{
		vf::state();
		vf::trans(2);
		for (const auto* r : { &a, &b })
		{
			if (must != 2) VF_CHECK(bool(*r) == bool(must), "%s: hit %d, should be %d (at %Lg)", what, int(bool(*r)), must, want);
			if (*r && must != 0) VF_CHECK(near(L(**r), want, tol), "%s: distance %Lg, should be %Lg", what, L(**r), want);
		}
	}

	static void planes()
	{
		vf::group("ray.plane");
		for (P o : origins())
			for (size_t di = 0; di < dirs().size(); di++)
			{
				if (!mine_()) continue;
				const auto& d = dirs()[di];
				const R r{ v3<T>(o), d.v };
				for (P n : { P{ 1, 0, 0 }, P{ 0, -1, 0 }, P{ 0, 0, 1 }, P{ 1, 2, 2 }, P{ 2, -2, 1 }, P{ 1, 1, 0 }, P{ -1, 1, 1 } })
					for (int k = -2; k <= 2; k++)
					{
						vf::at(pk(o), pk(d.raw), pk(n), k);
						const VT un = v3<T>(unit(n));
						const PL p{ un, T(k / 2.0L) };
						const P pn	= pt<T>(un);
						const L sd = dot(pn, o) + k / 2.0L, nd = dot(pn, d.p);
						const L err = 32 * ulp<T>() * (1 + maxabs(o));
						int must;
						L want = 0;
						L tol  = 0;
						if (std::fabs(nd) < 4 * err) { must = 2; } // (nearly) parallel
						else
						{
							want = -sd / nd;
							tol	 = err / std::fabs(nd) * (1 + std::fabs(want));
							must = want > tol ? 1 : want < -tol ? 0 : 2;
						}
						const auto a = r.hits(p), b = R::hits(r, p);
						if (must == 2 && std::fabs(nd) < 4 * err)
						{
							// parallel, up to rounding: a hit can only be far away; in the plane any distance is on it
							const L far = std::fabs(sd) < 4 * err ? 0 : std::fabs(sd) / (8 * err);
							VF_CHECK((!a || L(*a) >= far) && (!b || L(*b) >= far), "ray parallel to the plane: distance %Lg / %Lg", val(a), val(b));
							vf::state();
							vf::trans(2);
							continue;
						}
						judge("ray x plane", a, b, must, want, tol);
						if (a) VF_CHECK(L(*a) >= 0, "negative distance %Lg", L(*a));
					}
			}
	}
	static void triangles()
	{
		vf::group("ray.triangle");
		const P ts[][3] = { { { -2, -2, 0 }, { 2, -2, 0 }, { 0, 2, 0 } },  { { 0, 0, 0 }, { 0, 3, 0 }, { 0, 0, 3 } },	 { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } },
							{ { -3, 1, -1 }, { 2, 2, 1 }, { 1, -2, 2 } }, { { 0, -1, 2 }, { 3, -1, 1 }, { 1, -1, -2 } }, { { 1, 1, 1 }, { -1, 2, -2 }, { -1, -2, -2 } } };
		int ti = 0;
		for (const auto& t0 : ts)
		{
			ti++;
			for (int turn = 0; turn < 2; turn++)
				for (P o : origins())
					for (size_t di = 0; di < dirs().size(); di++)
					{
						if (!mine_()) continue;
						const P t[3]  = { t0[turn], t0[turn ? 0 : 1], t0[2] }; // both windings
						const auto& d = dirs()[di];
						vf::at(ti, turn, pk(o), pk(d.raw));
						const R r{ v3<T>(o), d.v };
						const TR tr = mtri<T>(t[0], t[1], t[2]);
						const P e1 = t[1] - t[0], e2 = t[2] - t[0], tv = o - t[0];
						const P pv = cross(d.p, e2);
						const L det = dot(e1, pv);
						const auto a = r.hits(tr), b = R::hits(r, tr);
						const L err = 64 * ulp<T>() * (1 + maxabs(tv)) * 4;
						if (std::fabs(det) < std::max(2 * err, 2 * EPS<T>))
						{
							// parallel to the triangle's plane: no hit, or (if in it) one at a valid place
							vf::state();
							vf::trans(2);
							const P n = cross(e1, e2);
							if (std::fabs(det) < 1e-9L && std::fabs(dot(n, tv)) > 0) VF_CHECK(!a && !b, "ray parallel to a triangle hits it");
							VF_CHECK((!a || L(*a) >= 0) && (!b || L(*b) >= 0), "ray x triangle: distance %Lg", val(a));
							continue;
						}
						const P qv = cross(tv, e1);
						const L u = dot(tv, pv) / det, v = dot(d.p, qv) / det, want = dot(e2, qv) / det;
						const L eb	 = err / std::fabs(det) * (1 + std::fabs(u) + std::fabs(v));
						const L edge = std::min({ u, v, 1 - u - v });
						const L tol	 = eb * 4 * (1 + std::fabs(want));
						int must	 = edge > eb ? 1 : edge < -eb ? 0 : 2;
						if (must != 0) must = want < -tol ? 0 : want > tol ? must : 2;
						judge("ray x triangle", a, b, must, want, tol);
						if (a) VF_CHECK(L(*a) >= 0, "negative distance %Lg", L(*a));
					}
		}
	}
	static void spheres()
	{
		vf::group("ray.sphere");
		const std::pair<P, L> ss[] = { { { 0, 0, 0 }, 1 }, { { 0, 0, 0 }, 3 }, { { 1, -1, 0.5L }, 1.5L }, { { 0, 2, 0 }, 0.5L }, { { -1, 0, 1 }, 2 } };
		int si					   = 0;
		for (const auto& [c, rad] : ss)
		{
			si++;
			for (P o : origins())
				for (size_t di = 0; di < dirs().size(); di++)
				{
					if (!mine_()) continue;
					const auto& d = dirs()[di];
					vf::at(si, pk(o), pk(d.raw));
					const R r{ v3<T>(o), d.v };
					const S s	= msph<T>(c, rad);
					const P e	= c - o;
					const L e2	= len2(e), r2 = rad * rad, a = dot(e, d.p), f2 = r2 - e2 + a * a;
					const L err = 16 * ulp<T>() * (1 + e2 + r2) + EPS<T>;
					const auto x = r.hits(s), y = R::hits(r, s);
					if (e2 > r2) // outside
					{
						const int must = a <= 0 ? 0 : f2 > err ? 1 : f2 < -err ? 0 : 2;
						const L f	   = sqrtl(std::max<L>(f2, 0));
						judge("ray x sphere from outside", x, y, must, a - f, f2 > err ? err / f : 2 * sqrtl(err));
					}
					else if (e2 < r2) // inside: the exit
					{
						const int must = f2 > 2 * err ? 1 : 2;
						const L f	   = sqrtl(std::max<L>(f2, 0));
						judge("ray x sphere from inside", x, y, must, a + f, f2 > err ? err / f + err : 2 * sqrtl(err));
					}
					else // starts on the surface: distance 0, or the exit on the other side, or (pointing away) nothing
					{
						vf::state();
						vf::trans(2);
						for (const auto* h : { &x, &y })
						{
							const L tol = std::max(8 * err, std::fabs(a) > 0 ? err / std::fabs(a) * 8 : 2 * sqrtl(err));
							if (a > 8 * sqrtl(err)) VF_CHECK(bool(*h), "ray from the surface into the sphere misses");
							if (*h) VF_CHECK(near(L(**h), 0, tol) || (a > 0 && near(L(**h), 2 * a, tol)), "ray from the sphere's surface: distance %Lg", L(**h));
						}
					}
				}
		}
	}
	static void boxes()
	{
		vf::group("ray.box");
		const std::pair<P, P> bs[] = { { { 0, 0, 0 }, { 1, 1, 1 } }, { { 0, 0, 0 }, { 2, 1, 0.5L } }, { { 0.5L, -0.5L, 1 }, { 1.5L, 0.5L, 1 } }, { { 1, 1, -1 }, { 0.5L, 2.5L, 1.5L } } };
		int bi					   = 0;
		for (const auto& [c, e] : bs)
		{
			bi++;
			for (P o : origins())
				for (size_t di = 0; di < dirs().size(); di++)
				{
					if (!mine_()) continue;
					const auto& d = dirs()[di];
					vf::at(bi, pk(o), pk(d.raw));
					const R r{ v3<T>(o), d.v };
					const B b	= mbox<T>(c, e);
					L tmin = -1e30L, tmax = 1e30L;
					bool apart = false, graze = false; // parallel to a slab and outside it / in its boundary
					for (int i = 0; i < 3; i++)
					{
						if (d.p[i] == 0)
						{
							if (std::fabs(o[i] - c[i]) > e[i]) apart = true;
							if (std::fabs(o[i] - c[i]) == e[i]) graze = true;
							continue;
						}
						const L t1 = (c[i] - e[i] - o[i]) / d.p[i], t2 = (c[i] + e[i] - o[i]) / d.p[i];
						tmin = std::max(tmin, std::min(t1, t2));
						tmax = std::min(tmax, std::max(t1, t2));
					}
					const auto x = r.hits(b), y = R::hits(r, b);
					const L err	 = 16 * ulp<T>() * 8;
					int must	 = apart ? 0 : tmin > tmax + err ? 0 : tmin > tmax - err ? 2 : 1;
					if (must && tmax < -err) must = 0;
					else if (must == 1 && tmax < err) must = 2;
					if (must == 1 && graze) must = 2;
					if (std::fabs(tmin) <= err && must) // starts on a face: 0, or the exit
					{
						vf::state();
						vf::trans(2);
						for (const auto* h : { &x, &y })
						{
							if (must == 1) VF_CHECK(bool(*h), "ray from a face into the box misses");
							if (*h) VF_CHECK(near(L(**h), 0, err) || near(L(**h), tmax, err), "ray from a face of the box: distance %Lg (not 0 or %Lg)", L(**h), tmax);
						}
						continue;
					}
					judge(tmin < 0 ? "ray x box from inside" : "ray x box from outside", x, y, must, tmin < 0 ? tmax : tmin, err);
				}
		}
	}
	static void at_()
	{
		vf::group("ray.at");
		for (P o : grid(-2, 2))
			for (size_t di = 0; di < dirs().size(); di++)
			{
				if (!mine_()) continue;
				const auto& d = dirs()[di];
				const R r{ v3<T>(o), d.v };
				for (int k = -4; k <= 8; k++)
				{
					vf::at(pk(o), pk(d.raw), k);
					const T t	  = T(k / 2.0L);
					const P w	  = o + d.p * (k / 2.0L);
					const L e	  = 16 * ulp<T>();
					const std::optional<T> h{ t };
					for (const VT& g : { r.at(t), R::at(r, t), r.at(h), R::at(r, h) }) VF_CHECK(near(pt<T>(g), w, e), "at(%d/2)", k);
					const VT nd = v3<T>({ 0, -1, 0 });
					for (const R& g : { r.bounce(t, nd), R::bounce(r, t, nd), r.bounce(h, nd), R::bounce(r, h, nd) })
						VF_CHECK(near(pt<T>(g.origin), w, e) && pt<T>(g.direction) == (P{ 0, -1, 0 }), "bounce(%d/2)", k);
					vf::state();
					vf::trans(8);
				}
			}
	}
	static void run()
	{
		planes();
		triangles();
		spheres();
		boxes();
		at_();
	}
};

int main(int argc, char** argv)
{
	vf::init(argc, argv);
#if GRP == 1
	rays<float>::run();
#elif GRP == 2
	rays<double>::run();
#elif GRP == 3
	rays<half>::run();
#else
	rays<long double>::run();
#endif
	return vf::finish();
}
