// N06: every sequence of operations on two accumulators, against the multiset of samples.
#include "muu/accumulator.h"
#include "muu/half.h"
#include "vf.h"
#include <cmath>
using namespace muu;
static uint64_t mine_n;
static bool mine_() { return vf::mine(mine_n++); }
#if MUU_HAS_FLOAT128
using wide = __float128;
#else
using wide = long double;
#endif
template <class T> struct dom;
#define INTS(T, ...) template <> struct dom<T> { static constexpr T v[] = { __VA_ARGS__ }; static constexpr bool fl = false; static constexpr wide u = 0; }
#define FLTS(T, U, ...) template <> struct dom<T> { static constexpr T v[] = { __VA_ARGS__ }; static constexpr bool fl = true; static constexpr wide u = U; }
INTS(int8_t, -128, -1, 0, 1, 127);
INTS(uint8_t, 0, 1, 128, 200, 255);
INTS(int16_t, -32768, -1, 0, 7, 32767);
INTS(uint16_t, 0, 1, 2, 40000, 65535);
INTS(int, -1000000, -1, 0, 1, 5000000);
INTS(unsigned, 0, 1, 2, 1000, 4000000);
INTS(int64_t, -(int64_t(1) << 50), -1, 0, 1, int64_t(1) << 50);
INTS(uint64_t, 0, 1, 3, 1000, uint64_t(1) << 50);
FLTS(float, 0x1p-24L, 1.0f, -0x1p25f, 0x1p25f, 0x1p-10f, -0.375f);
FLTS(double, 0x1p-53L, 1.0, -0x1p54, 0x1p54, 0x1p-20, -0.375);
FLTS(long double, 0x1p-64L, 1.0L, -0x1p65L, 0x1p65L, 0x1p-20L, -0.375L);
template <> struct dom<half> { static constexpr half v[] = { half{ 1.0f }, half{ -2048.0f }, half{ 2048.0f }, half{ 0.0009765625f }, half{ -0.375f } }; static constexpr bool fl = true; static constexpr wide u = 0x1p-11L; };

template <class T> struct model
{
	size_t n = 0;
	wide lo = 0, hi = 0, sum = 0, mag = 0;
	void add(T v)
	{
		const wide w = wide(v);
		if (!n || w < lo) lo = w;
		if (!n || w > hi) hi = w;
		n++, sum += w, mag += w < 0 ? -w : w;
	}
	void add(const model& o)
	{
		if (!o.n) return;
		if (!n) { *this = o; return; }
		const model c = o;
		if (c.lo < lo) lo = c.lo;
		if (c.hi > hi) hi = c.hi;
		n += c.n, sum += c.sum, mag += c.mag;
	}
};
static void show(char* b, wide w) { snprintf(b, 64, "%.21Lg", (long double)w); }
template <class T> static void check(const accumulator<T>& a, const model<T>& m, const char* which)
{
	VF_CHECK(a.sample_count() == m.n, "%s: sample_count() = %zu, want %zu", which, a.sample_count(), m.n);
	VF_CHECK(a.empty() == (m.n == 0), "%s: empty()", which);
	char x[64], y[64];
	if (m.n)
	{
		VF_CHECK(wide(a.min()) == m.lo, "%s: min()", which);
		VF_CHECK(wide(a.max()) == m.hi, "%s: max()", which);
	}
	const wide s = wide(a.sum());
	wide err = s - m.sum;
	if (err < 0) err = -err;
	const wide absS = m.sum < 0 ? -m.sum : m.sum;
	// Neumaier's bound for compensated summation (the integer one is exact)
	const wide bound = dom<T>::fl ? 2 * dom<T>::u * absS + 2 * wide(m.n + 1) * wide(m.n + 1) * dom<T>::u * dom<T>::u * m.mag : wide(0);
	show(x, s), show(y, m.sum);
	VF_CHECK(err <= bound, "%s: sum() = %s, want %s", which, x, y);
}
constexpr int NOPS = 17;
template <class T> struct st { accumulator<T> a, b; model<T> ma, mb; };
template <class T> static bool apply(st<T>& s, int op)
{
	const T* v = dom<T>::v;
	if (op < 5) { s.a.add(v[op]), s.ma.add(v[op]); }
	else if (op < 10) { s.b(v[op - 5]), s.mb.add(v[op - 5]); }
	else switch (op)
	{
		case 10: s.a.add(s.b), s.ma.add(s.mb); break;
		case 11: s.b(s.a), s.mb.add(s.ma); break;
		case 12: if (s.ma.n > 8) return false; s.a.add(s.a), s.ma.add(s.ma); break;
		case 13: { s.a.add(v + 1, v + 4); for (int i = 1; i < 4; i++) s.ma.add(v[i]); break; }
		case 14: s.a = accumulator<T>{}, s.ma = {}; break;
		case 15: s.b = accumulator<T>(v[4]), s.mb = {}, s.mb.add(v[4]); break;
		case 16: { s.b = accumulator<T>(v, v + 2), s.mb = {}, s.mb.add(v[0]), s.mb.add(v[1]); std::swap(s.a, s.b), std::swap(s.ma, s.mb); break; }
	}
	return true;
}
template <class T> static void explore(const st<T>& s, int depth, int64_t path)
{
	vf::at(path);
	vf::state();
	check(s.a, s.ma, "a"), check(s.b, s.mb, "b");
	if (!depth) return;
	for (int op = 0; op < NOPS; op++)
	{
		st<T> n = s;
		vf::at(path * 100 + op + 1);
		if (!apply(n, op)) continue;
		vf::trans();
		explore(n, depth - 1, path * 100 + op + 1);
	}
}
template <class T> static void run(const char* name, int depth)
{
	vf::text(name);
	for (int o1 = 0; o1 < NOPS; o1++) for (int o2 = 0; o2 < NOPS; o2++)
	{
		if (!mine_()) continue;
		st<T> s{};
		apply(s, o1);
		check(s.a, s.ma, "a"), check(s.b, s.mb, "b");
		if (!apply(s, o2)) continue;
		explore(s, depth - 2, (o1 + 1) * 100 + o2 + 1);
	}
}
// an accumulation of a user type uses its operators
struct money
{
	long c = 0;
	friend constexpr bool operator<(const money& a, const money& b) { return a.c < b.c; }
	constexpr money& operator+=(const money& o) { c += o.c; return *this; }
};
constexpr int ct(int which)
{
	accumulator<int> a, b(4);
	a.add(3).add(-2);
	int more[] = { 5, 6 };
	a.add(more, more + 2), a(b);
	return which == 0 ? a.sum() : which == 1 ? a.min() : which == 2 ? a.max() : int(a.sample_count());
}
int main(int argc, char** argv)
{
	vf::init(argc, argv);
	const int d = vf::thorough ? 6 : 5;
	if (vf::group("ints"))
	{
#define R(T) run<T>(#T, d);
		R(int8_t) R(uint8_t) R(int16_t) R(uint16_t) R(int) R(unsigned) R(int64_t) R(uint64_t)
	}
	if (vf::group("floats")) { R(float) R(double) R(long double) R(half) }
	if (vf::group("long_runs"))
	{
		// n tiny samples after a big one, and back again: plain summation would lose all of them
		int i = 0;
		for (int n = 1; n <= 2000; n++)
		{
			i++;
			if (!mine_()) continue;
			vf::at(i), vf::state(), vf::trans(uint64_t(n) + 2);
			accumulator<float> a;
			accumulator<double> b;
			a.add(0x1p24f), b.add(0x1p53);
			for (int k = 0; k < n; k++) a.add(1.0f), b.add(1.0);
			a.add(-0x1p24f), b.add(-0x1p53);
			VF_CHECK(a.sum() == float(n), "float: %d ones summed to %g", n, double(a.sum()));
			VF_CHECK(b.sum() == double(n), "double: %d ones summed to %g", n, b.sum());
		}
	}
	if (vf::group("other") && mine_())
	{
		vf::at(0), vf::state(), vf::trans(6);
		constexpr int s = ct(0), lo = ct(1), hi = ct(2), n = ct(3);
		VF_CHECK(s == 16 && lo == -2 && hi == 6 && n == 5, "constexpr accumulator: %d %d %d %d", s, lo, hi, n);
		accumulator<money> m;
		m.add(money{ 5 }), m.add(money{ -3 }), m(money{ 9 });
		accumulator<money> m2;
		m2.add(m), m2.add(m);
		VF_CHECK(m.min().c == -3 && m.max().c == 9 && m.sum().c == 11 && m.sample_count() == 3, "user type");
		VF_CHECK(m2.min().c == -3 && m2.max().c == 9 && m2.sum().c == 22 && m2.sample_count() == 6, "user type, merged");
	}
	return vf::finish();
}
