// N07: packed_unit_vector: every bit pattern of the narrow storage types, every direction on an integer grid for all.
#include "muu/packed_unit_vector.h"
#include "muu/half.h"
#include "vf.h"
#include <cmath>
#include <cfloat>
#include <sstream>
using namespace muu;
using L = long double;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
template <class I, size_t D> constexpr L step()
{
	constexpr int vb = int(sizeof(I) * 8 - D), xb = D == 3 ? vb - vb / 2 : vb;
	L r = 1;
	for (int i = 0; i < xb; i++) r *= 2;
	return 1 / (r - 2);
}
template <class T> constexpr L eps_of() { return sizeof(T) == 2 ? 0x1p-10L : L(std::numeric_limits<T>::epsilon()); }
// decoded direction within one quantum per coordinate of the octahedral projection
template <class I, size_t D, class T> constexpr L tol()
{
	return (D == 3 ? 4.5L : 2.2L) * step<I, D>() + 16 * eps_of<T>();
}
template <class T, size_t D> static L err(const vector<T, D>& a, const L (&b)[D])
{
	L s = 0;
	for (size_t i = 0; i < D; i++) { const L d = L(a[i]) - b[i]; s += d * d; }
	return std::sqrt(s);
}
template <class T, size_t D> static L len(const vector<T, D>& a)
{
	L s = 0;
	for (size_t i = 0; i < D; i++) s += L(a[i]) * L(a[i]);
	return std::sqrt(s);
}
template <class P> static bool neg(const P& p, size_t i)
{
	if (i == 0) return p.x_negative();
	if (i == 1) return p.y_negative();
	if constexpr (P::dimensions == 3) return p.z_negative();
	return false;
}
static L worst;
template <class I, size_t D, class T> static void check_dir(const L (&d)[D])
{
	using P = packed_unit_vector<I, D>;
	vector<T, D> v;
	for (size_t i = 0; i < D; i++) v[i] = T(d[i]);
	const P p{ v };
	vf::state(1);
	vf::trans(1);
	const auto u = p.template unpack<T>();
	const L e = err(u, d);
	const L t = tol<I, D, T>();
	if (e / t > worst) worst = e / t;
	VF_CHECK(e <= t, "decode is off by %Lg (allowed %Lg)", e, t);
	for (size_t i = 0; i < D; i++)
	{
		VF_CHECK(neg(p, i) == (v[i] < T{}), "sign getter %zu", i);
		if (v[i] != T{} && u[i] != T{}) { VF_CHECK((u[i] < T{}) == (v[i] < T{}), "decoded sign %zu", i); }
	}
	VF_CHECK(std::fabs(len(u) - 1) <= 16 * eps_of<T>(), "decoded length %Lg", len(u));
	const auto c = static_cast<vector<T, D>>(p);
	VF_CHECK(c == u, "conversion operator differs from unpack()");
	// decoding and packing again does not drift
	P q = p;
	for (int i = 0; i < 24; i++) q = P{ q.template unpack<T>() };
	const L e2 = err(q.template unpack<T>(), d);
	VF_CHECK(e2 <= t + 64 * eps_of<T>(), "after 24 round trips the decode is off by %Lg (allowed %Lg)", e2, t);
	const auto ud = p.template unpack<double>();
	VF_CHECK(err(ud, d) <= t + 16 * DBL_EPSILON, "unpack<double>");
	const auto uf = p.template unpack<float>();
	VF_CHECK(err(uf, d) <= t + 16 * FLT_EPSILON, "unpack<float>");
	const auto uh = p.template unpack<half>();
	VF_CHECK(err(uh, d) <= t + 0x1p-9L, "unpack<half>");
}
template <class I, size_t D, class T> static void grid(const char* name, int k)
{
	if (!vf::group(name)) return;
	int g[3] = {};
	for (g[0] = -k; g[0] <= k; g[0]++)
		for (g[1] = -k; g[1] <= k; g[1]++)
			for (g[2] = D == 3 ? -k : 0; g[2] <= (D == 3 ? k : 0); g[2]++)
			{
				if (!g[0] && !g[1] && !g[2]) continue;
				if (!mine_()) continue;
				vf::at(g[0], g[1], g[2], int(sizeof(I)), int(sizeof(T)));
				const L n = std::sqrt(L(g[0] * g[0] + g[1] * g[1] + g[2] * g[2]));
				L d[D];
				for (size_t i = 0; i < D; i++) d[i] = L(g[i]) / n;
				check_dir<I, D, T>(d);
			}
	// near the axes and the coordinate planes: components down to 2^-40
	static const L tiny[] = { 0, 0x1p-40L, 0x1p-24L, 0x1p-14L, 0x1p-8L, 0x1p-5L, 1.0L / 6, 0.25L, 1.0L / 3, 0.5L, 0.75L, 1 };
	const int nt = 12;
	for (int a = 0; a < nt; a++)
		for (int b = 0; b < nt; b++)
			for (int c = 0; c < (D == 3 ? nt : 1); c++)
				for (int s = 0; s < (1 << D); s++)
				{
					L w[3] = { tiny[a], tiny[b], D == 3 ? tiny[c] : 0 };
					const L n = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
					if (n == 0) continue;
					if (!mine_()) continue;
					vf::at(1000, a, b, c, s, int(sizeof(I)), int(sizeof(T)));
					L d[D];
					for (size_t i = 0; i < D; i++) d[i] = ((s >> i) & 1 ? -w[i] : w[i]) / n;
					check_dir<I, D, T>(d);
				}
}
template <class I, size_t D, class T> static void bits_(const char* name)
{
	if (!vf::group(name)) return;
	using P = packed_unit_vector<I, D>;
	for (unsigned long b = 0; b < (1ul << (sizeof(I) * 8)); b++)
	{
		if (!mine_()) continue;
		vf::at(int(b), int(sizeof(T)));
		P p;
		p.bits = I(b);
		const auto u = p.template unpack<T>();
		vf::state(1);
		vf::trans(1);
		VF_CHECK(std::fabs(len(u) - 1) <= 16 * eps_of<T>(), "length %Lg", len(u));
		for (size_t i = 0; i < D; i++)
			if (u[i] != T{}) { VF_CHECK((u[i] < T{}) == neg(p, i), "sign getter %zu disagrees with the decoded component", i); }
		if constexpr (sizeof(T) > 2)
		{
			const P q{ u };
			const auto w = q.template unpack<T>();
			L d[D];
			for (size_t i = 0; i < D; i++) d[i] = u[i];
			VF_CHECK(err(w, d) <= (tol<I, D, T>()), "re-packing moves the vector by %Lg", err(w, d));
			std::ostringstream a, c;
			a << p;
			c << p.template unpack<float>();
			VF_CHECK(a.str() == c.str(), "stream output");
		}
	}
}
template <class I, size_t D> static void consts(const char* name)
{
	if (!vf::group(name)) return;
	if (!mine_()) return;
	using P = packed_unit_vector<I, D>;
	using C = constants<P>;
	using V = constants<vector<float, D>>;
	vf::at(int(sizeof(I)));
#define ONE(n)                                                                                                         \
	{                                                                                                                  \
		vf::state(1);                                                                                                  \
		constexpr auto p = C::n;                                                                                       \
		constexpr auto v = V::n;                                                                                       \
		L d[D];                                                                                                        \
		for (size_t i = 0; i < D; i++) d[i] = v[i];                                                                    \
		const auto u = p.template unpack<double>();                                                                    \
		VF_CHECK(err(u, d) <= (tol<I, D, float>()), #n " is off by %Lg", err(u, d));                                     \
		const P r{ v };                                                                                                \
		VF_CHECK(r.bits == p.bits, #n ": compile time and run time differ");                                           \
		constexpr auto w = p.template unpack<float>();                                                                 \
		const volatile auto* q = &p;                                                                                   \
		const auto w2 = const_cast<const P*>(q)->template unpack<float>();                                             \
		L dd[D];                                                                                                       \
		for (size_t i = 0; i < D; i++) dd[i] = w[i];                                                                   \
		VF_CHECK(err(w2, dd) <= 4 * FLT_EPSILON, #n ": compile time and run time unpack differ");                      \
	}
	ONE(x_axis) ONE(y_axis) ONE(right) ONE(up) ONE(left) ONE(down)
	if constexpr (D == 3) { ONE(z_axis) ONE(backward) ONE(forward) }
	else { ONE(screen_right) ONE(screen_down) ONE(screen_left) ONE(screen_up) }
}
template <class I> static void all(const char* const (&n)[6])
{
	const int k3 = vf::thorough ? 48 : 16, k2 = vf::thorough ? 600 : 150;
	grid<I, 2, float>(n[0], k2);
	grid<I, 2, double>(n[0], k2);
	grid<I, 2, L>(n[0], k2);
	grid<I, 3, float>(n[1], k3);
	grid<I, 3, double>(n[1], k3);
	grid<I, 3, L>(n[1], k3);
	if constexpr (sizeof(I) <= 2)
	{
		bits_<I, 2, float>(n[2]);
		bits_<I, 2, double>(n[2]);
		bits_<I, 2, half>(n[2]);
		bits_<I, 3, float>(n[3]);
		bits_<I, 3, double>(n[3]);
		bits_<I, 3, half>(n[3]);
	}
	consts<I, 2>(n[4]);
	consts<I, 3>(n[5]);
}
int main(int argc, char** argv)
{
	vf::init(argc, argv);
	all<uint8_t>({ "u8_2d", "u8_3d", "u8_bits2", "u8_bits3", "u8_const2", "u8_const3" });
	all<uint16_t>({ "u16_2d", "u16_3d", "u16_bits2", "u16_bits3", "u16_const2", "u16_const3" });
	all<uint32_t>({ "u32_2d", "u32_3d", "", "", "u32_const2", "u32_const3" });
	all<uint64_t>({ "u64_2d", "u64_3d", "", "", "u64_const2", "u64_const3" });
#if MUU_HAS_INT128
	all<uint128_t>({ "u128_2d", "u128_3d", "", "", "u128_const2", "u128_const3" });
#endif
	if (vf::group("deduction") && mine_())
	{
		static_assert(std::is_same_v<decltype(packed_unit_vector{ vector<float, 2>{ 1.0f, 0.0f } }), packed_unit_vector<uint32_t, 2>>);
		static_assert(std::is_same_v<decltype(packed_unit_vector{ vector<double, 3>{ 1.0, 0.0, 0.0 } }), packed_unit_vector<uint32_t, 3>>);
		vf::state(1);
	}
	return vf::finish();
}
